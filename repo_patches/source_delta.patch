From 853fd22dfe9480cef2803b8c4d591ae501a7d5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 01/62] fix: report the unit ideal when equal leading monomials
 cancel to a constant

---
 ginv/poly_int.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 6d0a199..9c78ad4 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -760,6 +760,13 @@ std::cerr << "A" << std::endl;
     do {
       std::cerr << "AA - " << k1.data()->poly().lm() << std::endl;
       deg = k1.data()->poly().lm().degree();
+      if (deg == 0) {
+        for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
+          delete j.data();
+
+        setOne(order, size);
+        break;
+      }
       GCListWrapPolyInt::Iterator k(k1);
       ++k;
       while(k && deg == k.data()->poly().lm().degree()) {
@@ -838,6 +845,9 @@ std::cerr << "A" << std::endl;
       }
     } while(k1);
 
+    if (mOneWrap)
+      break;
+
     GCListWrapPolyInt::Iterator k(tmp.begin());
     while(k) {
       k.data()->update(k.data()->poly().lm());
-- 
2.43.0


From 32858f612428a0d9a1cc4dc6bd9bec73095a4f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 02/62] fix: prolong elements skipped by degree before the
 block algorithm stops

---
 ginv/poly_int.cpp | 8 +++++++-
 ginv/poly_int.h   | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 9c78ad4..4418897 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -632,6 +632,12 @@ void JanetPolyInt::prolong(WrapPolyInt *w) {
     }
 }
 
+bool JanetPolyInt::prolongRest() {
+  for(GCListWrapPolyInt::ConstIterator k(mT.begin()); k; ++k)
+    prolong(k.data());
+  return mQ;
+}
+
 bool JanetPolyInt::assertT() const {
   if (mT) {
     GCListWrapPolyInt::ConstIterator i(mT.begin());
@@ -704,7 +710,7 @@ void JanetPolyInt::algorithmBlockTQ() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(mQ || prolongRest()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index f6f95fa..bdc1c38 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -367,6 +367,7 @@ class JanetPolyInt {
   void setPos();
   void setOne(int order, int size);
   void prolong(WrapPolyInt *w);
+  bool prolongRest();
   bool assertT() const;
 
   static void insert(GCListWrapPolyInt &lst, WrapPolyInt *w);
-- 
2.43.0


From a09931e9579ba59b7ff362e24b4eef88f9d8e25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 03/62] fix: tail-reduce elements that enter the basis in the
 same block

---
 ginv/poly_int.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 4418897..6f47cd2 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -861,6 +861,14 @@ std::cerr << "A" << std::endl;
       mJanet[k.data()->lm().pos()+1].insert(k.data());
       ++k;
     }
+    for(k = tmp.begin(); k; ++k) {
+      int r=k.data()->poly().nfTail(*this);
+      if (r) {
+        mReduction += r;
+        k.data()->poly().pp();
+        k.data()->reallocate();
+      }
+    }
 
 //     if (degPref > deg) {
 //       delete[] mJanet;
-- 
2.43.0


From c8fdce3031019713eaf94cda8a7fe9e274e3f5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 04/62] fix: monomials at different positions are different
 monomials

---
 ginv/monom.cpp | 2 +-
 ginv/wrap.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginv/monom.cpp b/ginv/monom.cpp
index 13392fd..fc254d0 100644
--- a/ginv/monom.cpp
+++ b/ginv/monom.cpp
@@ -217,7 +217,7 @@ void Monom::permutation(const Monom &a, RandPermutation &p) {
 
 bool operator==(const Monom& a, const Monom& b) {
   assert(a.mSize == b.mSize);
-  bool r=a.mDegree == b.mDegree;
+  bool r=a.mPos == b.mPos && a.mDegree == b.mDegree;
   if (r) {
     const Monom::Variable *ia=a.mVariables,
                           *ib=b.mVariables;
diff --git a/ginv/wrap.cpp b/ginv/wrap.cpp
index 532d960..82d9d33 100644
--- a/ginv/wrap.cpp
+++ b/ginv/wrap.cpp
@@ -23,7 +23,7 @@
 namespace GInv {
 
 void Wrap::update(const Monom& m) {
-  if (mLm.lex(m) != 0) {
+  if (mLm != m) {
     mLm = m;
     mAnsector = m;
     for(int i=0; i < mLm.size(); i++) {
-- 
2.43.0


From 1ffd069c43b23de015e3303b178000c757d886f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 05/62] fix: dividing by a monomial with a position gives a
 plain monomial

---
 ginv/monom.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ginv/monom.cpp b/ginv/monom.cpp
index fc254d0..a071292 100644
--- a/ginv/monom.cpp
+++ b/ginv/monom.cpp
@@ -275,6 +275,8 @@ void Monom::mult(Monom::Variable v, const Monom& a) {
   
 void Monom::div(const Monom& a) {
   assert(divisiable(a));
+  if (a.mPos != -1)
+    mPos = -1;
   mDegree -=a.mDegree;
   Variable *i=mVariables;
   const Variable* const iend=mVariables+mSize;
-- 
2.43.0


From e8d051c5daeb3c1665ed2213ead818847b802ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 06/62] fix: submodules: a unit vector is not 1, and the
 product criterion does not apply

---
 ginv/poly_int.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 6f47cd2..1a75992 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -618,7 +618,7 @@ void JanetPolyInt::prolong(WrapPolyInt *w) {
     if (w->NM(i) && !w->build(i)) {
       Monom m(allocator, i, w->lm());
       const WrapPolyInt *d=find(m);
-      if (d && m.degree() >=
+      if (d && mPos == -1 && m.degree() >=
         (w->ansector().degree() + d->ansector().degree())) {
         ++mCritI;
         w->setBuild(i);
@@ -726,7 +726,7 @@ void JanetPolyInt::algorithmBlockTQ() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (j.data()->poly().degree() == 0 && j.data()->poly().lm().pos() == -1) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
@@ -766,7 +766,7 @@ std::cerr << "A" << std::endl;
     do {
       std::cerr << "AA - " << k1.data()->poly().lm() << std::endl;
       deg = k1.data()->poly().lm().degree();
-      if (deg == 0) {
+      if (deg == 0 && k1.data()->poly().lm().pos() == -1) {
         for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
           delete j.data();
 
@@ -963,7 +963,7 @@ void JanetPolyInt::algorithmTQ1() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (j.data()->poly().degree() == 0 && j.data()->poly().lm().pos() == -1) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
@@ -1147,7 +1147,7 @@ void JanetPolyInt::algorithmTQ2() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (j.data()->poly().degree() == 0 && j.data()->poly().lm().pos() == -1) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
@@ -1342,7 +1342,7 @@ void JanetPolyInt::algorithmTQ() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (j.data()->poly().degree() == 0 && j.data()->poly().lm().pos() == -1) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
-- 
2.43.0


From bfa4881b6f3ae4c8d50b2bd9b8475b4720ae5734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 07/62] fix: adding a constant to a polynomial keeps it in
 canonical form

Adding or subtracting the constant 0 stored a zero coefficient, a constant
was appended out of order under alex, and the zero polynomial could not be
extended at all; a polynomial built from the constant 0 was not zero.
---
 ginv/poly_int.cpp | 46 ++++------------------------------------------
 ginv/poly_int.h   |  6 +++++-
 util/integer.cpp  |  3 ++-
 3 files changed, 11 insertions(+), 44 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 1a75992..23b6946 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -127,26 +127,8 @@ void PolyInt::minus() {
 }
 
 void PolyInt::add(const char* hex) {
-  assert(mHead);
-  List<Term*>::Iterator i(mHead.begin());
-  assert(i);
-  int size=i.data()->mMonom.size();
-  while(i && (i.data()->mMonom.degree() > 0 ||
-              i.data()->mMonom.pos() >= 0))
-    ++i;
-  if (!i)
-    i.insert(new(mAllocator) Term(mAllocator, size, hex));
-  else {
-    assert(i.data()->mMonom.degree() == 0 &&
-           i.data()->mMonom.pos() == -1);
-    Integer a(mAllocator, hex);
-    i.data()->mCoeff.add(a);
-    if (i.data()->mCoeff.isZero()) {
-      mAllocator->destroy(i.data());
-      i.del();
-    }
-  }
-  assert(assertValid());
+  Allocator allocator[1];
+  add(PolyInt(allocator, mOrder, mSize, hex));
 }
 
 void PolyInt::add(const PolyInt &a) {
@@ -183,28 +165,8 @@ void PolyInt::add(const PolyInt &a) {
 }
 
 void PolyInt::sub(const char* hex) {
-  assert(mHead);
-  List<Term*>::Iterator i(mHead.begin());
-  assert(i);
-  int size=i.data()->mMonom.size();
-  while(i && (i.data()->mMonom.degree() > 0 ||
-              i.data()->mMonom.pos() >= 0))
-    ++i;
-  if (!i) {
-    i.insert(new(mAllocator) Term(mAllocator, size, hex));
-    i.data()->mCoeff.set_neg();
-  }
-  else {
-    assert(i.data()->mMonom.degree() == 0 &&
-           i.data()->mMonom.pos() == -1);
-    Integer a(mAllocator, hex);
-    i.data()->mCoeff.sub(a);
-    if (i.data()->mCoeff.isZero()) {
-      mAllocator->destroy(i.data());
-      i.del();
-    }
-  }
-  assert(assertValid());
+  Allocator allocator[1];
+  sub(PolyInt(allocator, mOrder, mSize, hex));
 }
 
 void PolyInt::sub(const PolyInt &a) {
diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index bdc1c38..afb53c3 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -133,7 +133,11 @@ public:
       Poly(order, size),
       mAllocator(allocator),
       mHead(allocator) {
-    mHead.push(new(allocator) Term(allocator, size, integer));
+    Term *t=new(allocator) Term(allocator, size, integer);
+    if (t->mCoeff.isZero())
+      allocator->destroy(t);
+    else
+      mHead.push(t);
     assert(assertValid());
   }
   PolyInt(Allocator* allocator, int order, const Monom& a):
diff --git a/util/integer.cpp b/util/integer.cpp
index fdf1f6f..6dca858 100644
--- a/util/integer.cpp
+++ b/util/integer.cpp
@@ -45,7 +45,8 @@ Integer::Integer(Allocator* allocator, const char *str):
   mpz_init(&tmp);
   int r=mpz_set_str(&tmp, str, 0);
   assert(r == 0);
-  reallocate(abs(tmp._mp_size));
+  if (tmp._mp_size)
+    reallocate(abs(tmp._mp_size));
   mpz_set(&mMpz, &tmp);
   mpz_clear(&tmp);
 }
-- 
2.43.0


From 39ea9a6643b7e71d7452dacbdfba434268c45d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 08/62] fix: the zeroth power of a polynomial is 1

---
 ginv/poly_int.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 23b6946..5a4e01e 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -320,8 +320,10 @@ void PolyInt::pow(int deg) {
   assert(deg >= 0);
   if (deg == 1)
     ;
-  else if (deg == 0)
+  else if (deg == 0) {
     clear();
+    add("0x1");
+  }
   else {
     assert(deg > 1);
     PolyInt tmp(mAllocator, *this);
-- 
2.43.0


From f5a6d5b61ecb4bd46a9331a9b518089bfe06bd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 09/62] fix: return every replaced term when a polynomial is
 multiplied by a single term

---
 ginv/poly_int.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 5a4e01e..04dbb88 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -257,7 +257,11 @@ void PolyInt::mult(const PolyInt &a) {
       }
     }
     mHead.swap(tmp);
-    mAllocator->destroy(tmp.head());
+    List<Term*>::Iterator k(tmp.begin());
+    while(k) {
+      mAllocator->destroy(k.data());
+      k.del();
+    }
   }
   else {
     List<Term*> sum(mAllocator);
-- 
2.43.0


From 5fdebab29a680fc0d7796a7ba4a0d3b7ed300488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 10/62] fix: subtracting a polynomial from itself does not read
 freed terms

---
 ginv/poly_int.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 04dbb88..3f6f640 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -147,13 +147,13 @@ void PolyInt::add(const PolyInt &a) {
       break;
     default:
       i.data()->mCoeff.add(ia.data()->mCoeff);
+      ++ia;
       if (!i.data()->mCoeff.isZero())
         ++i;
       else {
         mAllocator->destroy(i.data());
         i.del();
       }
-      ++ia;
     }
 
   while(ia) {
@@ -186,13 +186,13 @@ void PolyInt::sub(const PolyInt &a) {
       break;
     default:
       i.data()->mCoeff.sub(ia.data()->mCoeff);
+      ++ia;
       if (!i.data()->mCoeff.isZero())
         ++i;
       else {
         mAllocator->destroy(i.data());
         i.del();
       }
-      ++ia;
     }
 
   while(ia) {
-- 
2.43.0


From 5d0ae1c51b9d03eeed793f59d95ed82207714069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 11/62] fix: reduce a vector by a scalar polynomial

Terms were compared with the position of the divisor's term instead of the
position of its product with the cofactor, so equal terms were not merged.
---
 ginv/poly.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/ginv/poly.cpp b/ginv/poly.cpp
index a6b8dcd..29336ca 100644
--- a/ginv/poly.cpp
+++ b/ginv/poly.cpp
@@ -22,6 +22,10 @@
 
 namespace GInv {
 
+static inline int productPos(const Monom& a, const Monom& b) {
+  return (a.pos() == -1) ? b.pos(): a.pos();
+}
+
 int Poly::TOPlex(const Monom& a, const Monom& b) {
   int r=a.lex(b);
   if (r == 0 && a.pos() != b.pos())
@@ -45,22 +49,22 @@ int Poly::TOPalex(const Monom& a, const Monom& b) {
 
 int Poly::TOPlex2(const Monom& a, const Monom& b, const Monom& c) {
   int r=a.lex(b, c);
-  if (r == 0 && a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (r == 0 && a.pos() != productPos(b, c))
+    r = (a.pos() > productPos(b, c)) ? 1: -1;
   return r;
 }
 
 int Poly::TOPdeglex2(const Monom& a, const Monom& b, const Monom& c) {
   int r=a.deglex(b, c);
-  if (r == 0 && a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (r == 0 && a.pos() != productPos(b, c))
+    r = (a.pos() > productPos(b, c)) ? 1: -1;
   return r;
 }
 
 int Poly::TOPalex2(const Monom& a, const Monom& b, const Monom& c) {
   int r=a.alex(b, c);
-  if (r == 0 && a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (r == 0 && a.pos() != productPos(b, c))
+    r = (a.pos() > productPos(b, c)) ? 1: -1;
   return r;
 }
 
@@ -93,8 +97,8 @@ int Poly::POTalex(const Monom& a, const Monom& b) {
 
 int Poly::POTlex2(const Monom& a, const Monom& b, const Monom& c) {
   int r;
-  if (a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (a.pos() != productPos(b, c))
+    r = (a.pos() > productPos(b, c)) ? 1: -1;
   else
     r = a.lex(b, c);
   return r;
@@ -102,8 +106,8 @@ int Poly::POTlex2(const Monom& a, const Monom& b, const Monom& c) {
 
 int Poly::POTdeglex2(const Monom& a, const Monom& b, const Monom& c) {
   int r;
-  if (a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (a.pos() != productPos(b, c))
+    r = (a.pos() > productPos(b, c)) ? 1: -1;
   else
     r = a.deglex(b, c);
   return r;
@@ -111,8 +115,8 @@ int Poly::POTdeglex2(const Monom& a, const Monom& b, const Monom& c) {
 
 int Poly::POTalex2(const Monom& a, const Monom& b, const Monom& c) {
   int r;
-  if (a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (a.pos() != productPos(b, c))
+    r = (a.pos() > productPos(b, c)) ? 1: -1;
   else
     r = a.alex(b, c);
   return r;
-- 
2.43.0


From aafbfcd91150058ee4c433c82b2d7f38016c32cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 12/62] fix: copy the last subtree of every chain of a Janet
 tree

---
 ginv/janet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ginv/janet.cpp b/ginv/janet.cpp
index 73b1e62..ee660c2 100644
--- a/ginv/janet.cpp
+++ b/ginv/janet.cpp
@@ -97,6 +97,8 @@ Janet::Link Janet::build(Link j, Allocator* allocator) {
     i->mNextDeg = new(allocator) Node(j->mDeg, j->mWrap);
     i = i->mNextDeg;
   }
+  if (j->mNextVar)
+    i->mNextVar = build(j->mNextVar, allocator);
   return r;
 }
 
-- 
2.43.0


From 4a5c3961fc0c2868bcc85653d54302f53df2fa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:33 +0000
Subject: [PATCH 13/62] fix: pushing a monomial twice into a completion does
 not read the destroyed copy

---
 ginv/mcompletion.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ginv/mcompletion.cpp b/ginv/mcompletion.cpp
index 337881f..4868d19 100644
--- a/ginv/mcompletion.cpp
+++ b/ginv/mcompletion.cpp
@@ -35,8 +35,10 @@ void MCompletion::insert(Wrap *w) {
   }
   if (!j || mCmp(*j.data(), *w) > 0)
     j.insert(w);
-  else
+  else {
     mAllocator->destroy(w);
+    return;
+  }
   ++j;
   while(j) {
     for(int v=0; v < w->lm().size(); v++) {
-- 
2.43.0


From d94d4ef0d2d471c7fb3f0a32dd7d0856a7585794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:33 +0000
Subject: [PATCH 14/62] fix: a monomial that the tree covers already is not
 inserted again

---
 ginv/mcompletion.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ginv/mcompletion.h b/ginv/mcompletion.h
index 74bf520..230b1a9 100644
--- a/ginv/mcompletion.h
+++ b/ginv/mcompletion.h
@@ -121,7 +121,8 @@ public:
 
   void push(const Monom& m) {
 //     mQ.push(new(mAllocator) Wrap(mAllocator, m));
-    mJanet.insert(new(mAllocator) Wrap(m));
+    if (!mJanet.find(m))
+      mJanet.insert(new(mAllocator) Wrap(m));
   }
   void build();
 
-- 
2.43.0


From 276cff0385f8b22cb58d5c958a5d363eb4f58a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:45 +0000
Subject: [PATCH 15/62] fix: moving into an integer returns the number it
 replaces (heap integers)

---
 util/integer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/integer.h b/util/integer.h
index 37aac0f..a09295c 100644
--- a/util/integer.h
+++ b/util/integer.h
@@ -162,7 +162,7 @@ public:
     mpz_swap(&mMpz, &a.mMpz);
   }
   void operator=(Integer&& a) {
-    mpz_set(&mMpz, &a.mMpz);
+    mpz_clear(&mMpz);
     mMpz._mp_alloc = a.mMpz._mp_alloc;
     mMpz._mp_size = a.mMpz._mp_size;
     mMpz._mp_d = a.mMpz._mp_d;
-- 
2.43.0


From 1f594650693ce67197b2f816c175b5846c8cc2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 16/62] fix: assigning a collected polynomial copies the value,
 not the arena

---
 ginv/poly_int.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index afb53c3..52413ff 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -247,6 +247,8 @@ public:
   }
   ~GCPolyInt() {}
 
+  void operator=(const GCPolyInt &a) { PolyInt::operator=(a); }
+
   void swap(GCPolyInt &a) {
     AllocatorPtr::swap(a);
     PolyInt::swap(a);
-- 
2.43.0


From 0f6b92f2ffcba94fca71e51ea2fcc9464ed890b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 17/62] fix: destroying an array frees the block that was
 allocated for it

---
 util/allocator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/allocator.h b/util/allocator.h
index e9296e2..cb459b9 100644
--- a/util/allocator.h
+++ b/util/allocator.h
@@ -98,7 +98,7 @@ public:
     assert(n > 0);
     for(int i=0; i < n; i++)
       ptr[i].~T();
-    deallocate(ptr, sizeof(size_t) + sizeof(T)*n);
+    deallocate((const char*)ptr - sizeof(size_t), sizeof(size_t) + sizeof(T)*n);
   }
 
   inline size_t alloc() const { return mAlloc; }
-- 
2.43.0


From 561f751fc75f7733e5f500d40b2cad1f9dfeaf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 18/62] fix: the ordered set can be moved

---
 util/rbtree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/rbtree.h b/util/rbtree.h
index cdf17d4..314e658 100644
--- a/util/rbtree.h
+++ b/util/rbtree.h
@@ -475,7 +475,7 @@ public:
   };
 
   inline RBTree(RBTree&& a):
-      mAllocator(a.allocator),
+      mAllocator(a.mAllocator),
       mRoot(a.mRoot),
       mCount(a.mCount) {
     a.mRoot = nullptr;
-- 
2.43.0


From 642b981d0573b1ad0b9f8e5db0a74a7c58027477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 19/62] fix: a list can be move-assigned

---
 util/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/list.h b/util/list.h
index 60d015f..76ce2b4 100644
--- a/util/list.h
+++ b/util/list.h
@@ -211,7 +211,7 @@ public:
       ++i;
     }
   }
-  inline void operator=(const List&& a) {
+  inline void operator=(List&& a) {
     assert(this != &a);
 
     Iterator(this).clear();
-- 
2.43.0


From d8263117ad7b38824ff1f71c7f6449d814183702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 20/62] fix: an empty ordered set can be assigned

---
 util/rbtree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/rbtree.h b/util/rbtree.h
index 314e658..01cfa82 100644
--- a/util/rbtree.h
+++ b/util/rbtree.h
@@ -522,7 +522,7 @@ public:
     assert(this != &a);
     if (mRoot)
       clear(mRoot, mAllocator);
-    mRoot = copy(a.mRoot, mAllocator, nullptr);
+    mRoot = (a.mRoot) ? copy(a.mRoot, mAllocator, nullptr): nullptr;
     mCount = a.mCount;
     assert(assertValid());
   }
-- 
2.43.0


From 048d827e8103c59003747a6328f51aa22b17c87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 21/62] fix: printing a timer restores the precision of the
 stream

---
 util/timer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/timer.cpp b/util/timer.cpp
index 36969c2..f31a5b4 100644
--- a/util/timer.cpp
+++ b/util/timer.cpp
@@ -118,11 +118,13 @@ void Timer::stop() {
 
 std::ostream& operator<<(std::ostream& out, const Timer &a) {
   std::ios::fmtflags flags = out.flags();
+  std::streamsize precision = out.precision();
   out.flags(flags | std::ios::fixed);
   out << "  real time: " << std::setprecision(2) << a.realTime() << " sec" << std::endl;
   out << "  user time: " << std::setprecision(2) << a.userTime() << " sec" << std::endl;
   out << "system time: " << std::setprecision(2) << a.sysTime()  << " sec" << std::endl;
   out.flags(flags);
+  out.precision(precision);
   return out;
 }
 
-- 
2.43.0


From e15ffe51dc7576a35054fe94d1e8fbafadd17e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 22/62] fix: the alternative completion strategies prolong
 elements skipped by degree

---
 ginv/poly_int.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 3f6f640..464aa14 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -913,7 +913,7 @@ void JanetPolyInt::algorithmTQ1() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(mQ || prolongRest()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
@@ -1097,7 +1097,7 @@ void JanetPolyInt::algorithmTQ2() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(mQ || prolongRest()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
@@ -1294,7 +1294,7 @@ void JanetPolyInt::algorithmTQ() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(mQ || prolongRest()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
-- 
2.43.0


From baddf288e122a9924d5bd5712f2b70e0dc5de7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 23/62] fix: strategy TQ2 keeps its basis when the degree
 falls, as the other strategies do

---
 ginv/poly_int.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 464aa14..320d83a 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -1224,14 +1224,14 @@ void JanetPolyInt::algorithmTQ2() {
     w->update(w->poly().lm());
     mJanet[w->lm().pos()+1].insert(w);
 
-    if (degPref > deg) {
-      delete[] mJanet;
-      mJanet = new GCJanet[mPos+2];
-      for(GCListWrapPolyInt::Iterator j(mT.begin()); j; j.del()) {
-        j.data()->clearNM();
-        mQ.push(j.data());
-      }
-    }
+//     if (degPref > deg) {
+//       delete[] mJanet;
+//       mJanet = new GCJanet[mPos+2];
+//       for(GCListWrapPolyInt::Iterator j(mT.begin()); j; j.del()) {
+//         j.data()->clearNM();
+//         mQ.push(j.data());
+//       }
+//     }
     degPref = deg;
 
 
-- 
2.43.0


From 1189a874f8885744fe15e647d57657e3bd164dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 24/62] fix: strategy TQ2 accepts an empty set of generators

---
 ginv/poly_int.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 320d83a..d48deb1 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -1278,7 +1278,7 @@ void JanetPolyInt::algorithmTQ2() {
 
   std::cerr << "isZeroNf() - " << isZeroNf() << std::endl;
 
-  if (mOneWrap == nullptr) {
+  if (mOneWrap == nullptr && mT) {
     HilbertPoly hp;
     buildHP(hp);
     std::cerr << "HilbertPoly - " << hp << std::endl;
-- 
2.43.0


From bbedd2030ca557c254be1ce33831af1f5125a5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 25/62] fix: computing a binomial returns its temporary number

---
 util/hilbertpoly.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/hilbertpoly.cpp b/util/hilbertpoly.cpp
index f101d89..892dff6 100644
--- a/util/hilbertpoly.cpp
+++ b/util/hilbertpoly.cpp
@@ -108,6 +108,7 @@ void HilbertPoly::binomial(long int a, unsigned long b) {
 
     for(k = 0; k < b; k++)
       mpq_clear(tmp + k);
+    mpq_clear(&q);
 
     delete[] tmp;
   }
-- 
2.43.0


From 2c9887e4855544955a8f4f5fbaec31a76c3800b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 26/62] fix: cython: a polynomial minus an integer is a
 difference

---
 cython/ginv.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 73ed869..8fe8606 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -517,7 +517,7 @@ cdef class const_poly_int:
     if isinstance(other, const_poly_int):
       return -other.sub(self)
     else:
-      return self.add(other)
+      return self.sub(other)
 
   def mul(const_poly_int self, other): #TODO
     assert self.ptr
-- 
2.43.0


From 2025cca0b854ff6cdd454e81c4177ddd082d2734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 27/62] fix: cython: an integer can be the left operand of +, -
 and *

---
 cython/ginv.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 8fe8606..90bb54e 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -498,6 +498,8 @@ cdef class const_poly_int:
       return other.add(self)
     else:
       return self.add(other)
+  def __radd__(self, other):
+    return self.add(other)
 
   def sub(const_poly_int self, other):
     assert self.ptr
@@ -518,6 +520,8 @@ cdef class const_poly_int:
       return -other.sub(self)
     else:
       return self.sub(other)
+  def __rsub__(self, other):
+    return (-self).add(other)
 
   def mul(const_poly_int self, other): #TODO
     assert self.ptr
@@ -538,6 +542,8 @@ cdef class const_poly_int:
       return other.mul(self)
     else:
       return self.mul(other)
+  def __rmul__(self, other):
+    return self.mul(other)
 
   def __pow__(const_poly_int self, int other, modulo):
     assert other >= 0
-- 
2.43.0


From e65dff2e1ab6815c6770a2f705548f1038a3ce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 28/62] fix: cython: the timer of a basis shows its own times

---
 cython/ginv.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 90bb54e..9806697 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -74,11 +74,11 @@ cdef class const_timer:
     self.ptr = NULL
 
   def userTime(self):
-    return allocator_timer().userTime()
+    return self.ptr.userTime()
   def sysTime(self):
-    return allocator_timer().sysTime()
+    return self.ptr.sysTime()
   def realTime(self):
-    return allocator_timer().realTime()
+    return self.ptr.realTime()
 
   def __str__(self):
     return "userTime: %.2f, sysTime: %.2f, realTime: %.2f" % (\
-- 
2.43.0


From 091adfb3e60f5f505f857a7f01164eee5eb51272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 29/62] fix: cython: a monomial can be divided by a leading
 monomial

---
 cython/ginv.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 9806697..acfa045 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -305,7 +305,7 @@ cdef class const_monom:
     r = monom()
     r.ptr = new Monom(r.allocator, self.ptr[0], other)
     return r
-  def __truediv__(const_monom self, monom other):
+  def __truediv__(const_monom self, const_monom other):
     assert self.divisiable(other)
     r = monom()
     r.ptr = new Monom(r.allocator, self.ptr[0])
-- 
2.43.0


From cf97047899c56be4a5dd59c1fff009ecbd095d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 30/62] fix: cython: check the index of a variable before using
 it

---
 cython/ginv.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index acfa045..0bf2101 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -264,6 +264,8 @@ cdef class const_monom:
     return self.ptr.degree()
   def __getitem__(self, k):
     assert self.ptr
+    if not 0 <= k < self.ptr.size():
+      raise IndexError(k)
     return self.ptr.get(k)
   def __iter__(self):
     assert self.ptr
@@ -339,6 +341,7 @@ cdef class monom(const_monom):
   @staticmethod
   def variable(Variable v, int size, int pos):
     assert size > 1 and pos >= -1
+    assert 0 <= v < size
     r = monom()
     r.ptr = new Monom(r.allocator, v, size, pos)
     return r
@@ -622,8 +625,10 @@ cdef class wrap_poly_int:
     return self.ptr.isGB()
 
   def NM(self, int var):
+    assert 0 <= var < self.ptr.lm().size()
     return self.ptr.NM(var)
   def build(self, int var):
+    assert 0 <= var < self.ptr.lm().size()
     return self.ptr.build(var)
   def poly(self):
     r = const_poly_int()
-- 
2.43.0


From 6d949f503a1f3c371e800219e98b4f6dd18128ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 31/62] fix: cython: the unit ideal has no Janet tree to show

---
 cython/ginv.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 0bf2101..d8f5a2a 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -758,6 +758,7 @@ cdef class janet_poly_int:
   def maxPos(self):
     return self.ptr.maxPos()
   def janet(self, pos):
+    assert not self.ptr.isOne()
     assert -1 <= pos <= self.ptr.maxPos()
     r = const_janet()
     r.ptr = &self.ptr.janet(pos)
-- 
2.43.0


From 8a4d8072fa49fea2804ef9311f89412557c40663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 32/62] fix: cython: a normal form is computed in place only
 for polynomials of the caller

---
 cython/ginv.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index d8f5a2a..7f5d75e 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -750,8 +750,8 @@ cdef class janet_poly_int:
       r.ptr = w
       return r
 
-  def nf(self, const_poly_int p):
-    self.ptr.comparable(p.ptr[0])
+  def nf(self, poly_int p):
+    assert self.ptr.comparable(p.ptr[0])
     self.ptr.nf((<PolyInt *>p.ptr)[0])
     return p
 
-- 
2.43.0


From f006e3d8ddf694429ecc7032b29ae707f3a2398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 33/62] fix: cython: objects construct and destroy their arena

---
 cython/ginv.pyx | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 7f5d75e..3961abf 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -88,7 +88,7 @@ cdef class const_timer:
       )
 
 cdef class allocator:
-  cdef Allocator allocator[1]
+  cdef Allocator allocator
 
   @staticmethod
   def maxMemory():
@@ -290,7 +290,7 @@ cdef class const_monom:
     assert self.ptr
     assert len(self) == len(p)
     r = monom()
-    r.ptr = new Monom(r.allocator, self.ptr[0])
+    r.ptr = new Monom(&r.allocator, self.ptr[0])
     (<Monom*>r.ptr)[0].permutation(self.ptr[0], p.ptr[0])
     return r
 
@@ -299,18 +299,18 @@ cdef class const_monom:
     assert self.ptr.size() == other.ptr.size()
     assert self.pos() == -1 or other.pos() == -1
     r = monom()
-    r.ptr = new Monom(r.allocator, self.ptr[0], other.ptr[0])
+    r.ptr = new Monom(&r.allocator, self.ptr[0], other.ptr[0])
     return r
   def __pow__(const_monom self, int other, modulo):
     assert self.ptr != NULL and self.pos() == -1
     assert other >= 0
     r = monom()
-    r.ptr = new Monom(r.allocator, self.ptr[0], other)
+    r.ptr = new Monom(&r.allocator, self.ptr[0], other)
     return r
   def __truediv__(const_monom self, const_monom other):
     assert self.divisiable(other)
     r = monom()
-    r.ptr = new Monom(r.allocator, self.ptr[0])
+    r.ptr = new Monom(&r.allocator, self.ptr[0])
     (<Monom*>r.ptr)[0].div(other.ptr[0])
     return r
 
@@ -328,7 +328,7 @@ cdef class const_monom:
     return self.ptr.alex(other.ptr[0])
 
 cdef class monom(const_monom):
-  cdef Allocator allocator[1]
+  cdef Allocator allocator
   def __dealloc__(self):
     del self.ptr
 
@@ -336,14 +336,14 @@ cdef class monom(const_monom):
   def zero(int size, int pos):
     assert size > 1 and pos >= -1
     r = monom()
-    r.ptr = new Monom(r.allocator, size, pos)
+    r.ptr = new Monom(&r.allocator, size, pos)
     return r
   @staticmethod
   def variable(Variable v, int size, int pos):
     assert size > 1 and pos >= -1
     assert 0 <= v < size
     r = monom()
-    r.ptr = new Monom(r.allocator, v, size, pos)
+    r.ptr = new Monom(&r.allocator, v, size, pos)
     return r
 
   @staticmethod
@@ -353,7 +353,7 @@ cdef class monom(const_monom):
   @staticmethod
   def next():
     r = monom()
-    r.ptr = monom_next(r.allocator)
+    r.ptr = monom_next(&r.allocator)
     return r
 
   def setPos(self, int pos):
@@ -478,14 +478,14 @@ cdef class const_poly_int:
   def __neg__(self):
     assert self.ptr
     r = poly_int()
-    r.ptr = new PolyInt(r.allocator, self.ptr[0])
+    r.ptr = new PolyInt(&r.allocator, self.ptr[0])
     (<PolyInt*>r.ptr).minus()
     return r
 
   def add(const_poly_int self, other):
     assert self.ptr
     r = poly_int()
-    r.ptr = new PolyInt(r.allocator, self.ptr[0])
+    r.ptr = new PolyInt(&r.allocator, self.ptr[0])
     if isinstance(other, int):
       assert self
       (<PolyInt*>r.ptr).addI(hex(other).encode("utf-8"))
@@ -507,7 +507,7 @@ cdef class const_poly_int:
   def sub(const_poly_int self, other):
     assert self.ptr
     r = poly_int()
-    r.ptr = new PolyInt(r.allocator, self.ptr[0])
+    r.ptr = new PolyInt(&r.allocator, self.ptr[0])
     if isinstance(other, int):
       assert self
       (<PolyInt*>r.ptr).subI(hex(other).encode("utf-8"))
@@ -529,7 +529,7 @@ cdef class const_poly_int:
   def mul(const_poly_int self, other): #TODO
     assert self.ptr
     r = poly_int()
-    r.ptr = new PolyInt(r.allocator, self.ptr[0])
+    r.ptr = new PolyInt(&r.allocator, self.ptr[0])
     if isinstance(other, int):
       assert self
       (<PolyInt*>r.ptr).multI(hex(other).encode("utf-8"))
@@ -551,7 +551,7 @@ cdef class const_poly_int:
   def __pow__(const_poly_int self, int other, modulo):
     assert other >= 0
     r = poly_int()
-    r.ptr = new PolyInt(r.allocator, self.ptr[0])
+    r.ptr = new PolyInt(&r.allocator, self.ptr[0])
     (<PolyInt *>r.ptr).pow(other)
     return r
 
@@ -560,7 +560,7 @@ cdef class const_poly_int:
     return self.ptr.isPp()
 
 cdef class poly_int(const_poly_int):
-  cdef Allocator allocator[1]
+  cdef Allocator allocator
   def __dealloc__(self):
     del self.ptr
 
@@ -581,7 +581,7 @@ cdef class poly_int(const_poly_int):
     else:
       k |= 0x04
     r = poly_int()
-    r.ptr = new PolyInt(r.allocator, k, a.ptr[0])
+    r.ptr = new PolyInt(&r.allocator, k, a.ptr[0])
     return r
 
   def reduction(poly_int self, const_poly_int other):
-- 
2.43.0


From 3e41ef327c1662042d696c1f06dfa9e34aa2dab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 34/62] fix: cython: a view keeps the object it looks into
 alive

---
 cython/ginv.pyx | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 3961abf..8d64744 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -70,6 +70,7 @@ cdef class const_timer_GC:
 
 cdef class const_timer:
   cdef const Timer* ptr
+  cdef object owner
   def __cinit__(self):
     self.ptr = NULL
 
@@ -172,6 +173,7 @@ cdef extern from "integer.h" namespace "GInv":
 
 cdef class const_integer:
   cdef const Integer *ptr
+  cdef object owner
   def __cinit__(self, ):
     self.ptr = NULL
 
@@ -247,6 +249,7 @@ cdef extern from "monom.h" namespace "GInv":
 
 cdef class const_monom:
   cdef const Monom *ptr
+  cdef object owner
   def __cinit__(self):
     self.ptr = NULL
 
@@ -402,6 +405,7 @@ cdef extern from "poly_int.h" namespace "GInv":
 
 cdef class const_poly_int:
   cdef const PolyInt *ptr
+  cdef object owner
   def __cinit__(self, ):
     self.ptr = NULL
 
@@ -418,6 +422,7 @@ cdef class const_poly_int:
     while i.isNext():
       m, c = const_monom(), const_integer()
       m.ptr, c.ptr = &i.monom(), &i.coeff()
+      m.owner, c.owner = self, self
       i.next()
       yield (m, c)
   def __str__(self):
@@ -448,12 +453,14 @@ cdef class const_poly_int:
     assert self
     r = const_monom()
     r.ptr = &self.ptr.lm()
+    r.owner = self
     return r
   def lc(self):
     assert self.ptr
     assert self
     r = const_integer()
     r.ptr = &self.ptr.lc()
+    r.owner = self
     return r
   def comparable(self, const_poly_int other):
     return self.ptr.comparable(other.ptr[0])
@@ -610,16 +617,19 @@ cdef extern from "poly_int.h" namespace "GInv":
 
 cdef class wrap_poly_int:
   cdef const WrapPolyInt *ptr
+  cdef object owner
   def __cinit__(self, ):
     self.ptr = NULL
 
   def lm(self):
     r = const_monom()
     r.ptr = &self.ptr.lm()
+    r.owner = self
     return r
   def ansector(self):
     r = const_monom()
     r.ptr = &self.ptr.ansector()
+    r.owner = self
     return r
   def isGB(self):
     return self.ptr.isGB()
@@ -633,6 +643,7 @@ cdef class wrap_poly_int:
   def poly(self):
     r = const_poly_int()
     r.ptr = &self.ptr.poly()
+    r.owner = self
     return r
 
   def __str__(self):
@@ -654,6 +665,7 @@ cdef extern from "janet.h" namespace "GInv":
 
 cdef class const_janet:
   cdef const Janet *ptr
+  cdef object owner
   def __cinit__(self, ):
     self.ptr = NULL
 
@@ -723,6 +735,7 @@ cdef class janet_poly_int:
     while i.isNext():
       r = wrap_poly_int()
       r.ptr = i.data()
+      r.owner = self
       i.next()
       yield r
 
@@ -748,6 +761,7 @@ cdef class janet_poly_int:
     else:
       r = wrap_poly_int()
       r.ptr = w
+      r.owner = self
       return r
 
   def nf(self, poly_int p):
@@ -762,6 +776,7 @@ cdef class janet_poly_int:
     assert -1 <= pos <= self.ptr.maxPos()
     r = const_janet()
     r.ptr = &self.ptr.janet(pos)
+    r.owner = self
     return r
 
   def HilbertPoly(self):
@@ -779,6 +794,7 @@ cdef class janet_poly_int:
   def timer(self):
     r = const_timer()
     r.ptr = &self.ptr.timer()
+    r.owner = self
     return r
   def reduction(self):
     return self.ptr.reduction()
-- 
2.43.0


From 20f54d993e4b14fc7827cb5aa8efe2c11131bc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 35/62] fix: cython: the zero polynomial has no degree

---
 cython/ginv.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 8d64744..b6c6e37 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -443,6 +443,7 @@ cdef class const_poly_int:
     return self.ptr.isZero()
   def degree(self):
     assert self.ptr
+    assert self
     return self.ptr.degree()
   def norm(self):
     assert self.ptr
-- 
2.43.0


From fed3dc462fb23e8d4e2076f0e01128f20155f6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 36/62] fix: the unit ideal is compared with polynomials of its
 own ring only

---
 ginv/poly_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index 52413ff..24e36f0 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -404,7 +404,7 @@ public:
   }
 
   bool comparable(const PolyInt& a) const {
-    return (!mQ && !mT) ||
+    return (!mOneWrap && !mQ && !mT) ||
       (mQ && mQ.head()->poly().comparable(a)) ||
       (mT && mT.head()->poly().comparable(a)) ||
       (mOneWrap && mOneWrap->poly().comparable(a));
-- 
2.43.0


From 4c675c474bf2298de43fb900e86abb65eefca7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 37/62] fix: pyginv: exponents of two digits in LaTeX

---
 pyginv/monomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyginv/monomial.py b/pyginv/monomial.py
index 3594da0..ade95ed 100644
--- a/pyginv/monomial.py
+++ b/pyginv/monomial.py
@@ -75,7 +75,7 @@ class Monom(tuple):
         return Monom.__fun[self.__pos]
   
   def latex(self):
-    m = " ".join(f"{{{v}}}^{d}" if d > 1 else f"{{{v}}}" \
+    m = " ".join(f"{{{v}}}^{{{d}}}" if d > 1 else f"{{{v}}}" \
                 for v, d in zip(Monom.__var, self) if d >= 1)
     if self.__pos == -1:
       if m:
-- 
2.43.0


From 69b83fe1cc014912340a56564b8fdaaf7147505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 38/62] fix: pyginv: += on a polynomial adds instead of
 appending terms

---
 pyginv/polynomial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index c40b8f7..d56e458 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -74,6 +74,9 @@ class Poly(list):
   def __radd__(self, other):
     return self+other
 
+  def __iadd__(self, other):
+    return self+other
+
   def __add__(self, other):
     if other == S.Zero:
       return self
-- 
2.43.0


From 7c6ed394ed09cc3684014efb916958be67c6e502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 39/62] fix: pyginv: number minus polynomial has the right sign

---
 pyginv/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index d56e458..3423ecf 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -110,7 +110,7 @@ class Poly(list):
     return p
 
   def __rsub__(self, other):
-    return self-other
+    return -self+other
 
   def __sub__(self, other):
     if other == S.Zero:
-- 
2.43.0


From ccf904ab5c9e9b4fea66dd8587ac5d53a3259294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 40/62] fix: pyginv: there is no quotient by a polynomial

---
 pyginv/polynomial.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index 3423ecf..a336b5c 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -169,10 +169,9 @@ class Poly(list):
     assert p.assertValid()
     return p
   
-  def __rtruediv__(self, other):
-    return self/other
-  
   def __truediv__(self, other):
+    if isinstance(other, Poly):
+      return NotImplemented
     p = self.__class__()
     for m, k in self:
       p.append([m, k/other])
-- 
2.43.0


From b2f6dcd8d97826f3b9fadc2fb669d8400626605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 41/62] fix: pyginv: results of operators do not share terms
 with their operands

---
 pyginv/polynomial.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index a336b5c..904ea81 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -63,7 +63,7 @@ class Poly(list):
     return self.lm().cmp(other.lm())
 
   def __pos__(self):
-    return self
+    return self.__class__(self)
 
   def __neg__(self):
     p = self.__class__()
@@ -79,7 +79,7 @@ class Poly(list):
 
   def __add__(self, other):
     if other == S.Zero:
-      return self
+      return self.__class__(self)
     if isinstance(other, int): 
       other = self.__class__(Integer(other))
     else:
@@ -89,7 +89,7 @@ class Poly(list):
     while i < iend and j < jend:
       c = self[i][0].cmp(other[j][0])
       if c > 0:
-        p.append(self[i])
+        p.append([self[i][0], self[i][1]])
         i += 1
       elif c < 0:
         p.append(other[j])
@@ -101,7 +101,7 @@ class Poly(list):
         i += 1
         j += 1
     while i < iend:
-      p.append(self[i])
+      p.append([self[i][0], self[i][1]])
       i += 1
     while j < jend:
       p.append(other[j])
@@ -114,7 +114,7 @@ class Poly(list):
 
   def __sub__(self, other):
     if other == S.Zero:
-      return self
+      return self.__class__(self)
     if isinstance(other, int): 
       other = self.__class__(Integer(other))
     else:
@@ -124,7 +124,7 @@ class Poly(list):
     while i < iend and j < jend:
       c = self[i][0].cmp(other[j][0])
       if c > 0:
-        p.append(self[i])
+        p.append([self[i][0], self[i][1]])
         i += 1
       elif c < 0:
         p.append([other[j][0], -other[j][1]])
@@ -136,7 +136,7 @@ class Poly(list):
         i += 1
         j += 1
     while i < iend:
-      p.append(self[i])
+      p.append([self[i][0], self[i][1]])
       i += 1
     while j < jend:
       p.append([other[j][0], -other[j][1]])
@@ -149,7 +149,7 @@ class Poly(list):
 
   def __mul__(self, other):
     if other == S.One:
-      return self
+      return self.__class__(self)
     if isinstance(other, int): 
       other = self.__class__(Integer(other))
     else:
@@ -182,7 +182,7 @@ class Poly(list):
     if other == 0:
       p = self.__class__(Integer(1))
     else:
-      p = self
+      p = self.__class__(self)
       for i in range(1, other):
         p = p*self
     return p
-- 
2.43.0


From 7b54a8f814b574d5e0fa395f35cfa4436796445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 42/62] fix: pyginv: S-polynomials of module elements

---
 pyginv/polynomial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index 904ea81..d096414 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -351,9 +351,11 @@ class Poly(list):
   def S(self, other):
     assert self and other
     assert self.lm().position() == other.lm().position()
-    m, k = self[0][0].lcm(other[0][0]), gcd(self[0][1], other[0][1])
+    # множители не зависят от позиции
+    m1, m2 = Monom(self[0][0]), Monom(other[0][0])
+    m, k = m1.lcm(m2), gcd(self[0][1], other[0][1])
     #assert self[0][1]%k == S.Zero and other[0][1]%k == S.Zero
-    return self.mult(m/self[0][0], other[0][1]/k) - other.mult(m/other[0][0], self[0][1]/k)
+    return self.mult(m/m1, other[0][1]/k) - other.mult(m/m2, self[0][1]/k)
 
   def assertValid(self):
     for i in range(len(self)-1):
-- 
2.43.0


From d1cb2411e919471cf69bc8e65b8b9ec57b4987b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 43/62] fix: pyginv: coefficients that are sums are
 parenthesized in the text

---
 pyginv/polynomial.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index d096414..e51a20b 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -2,6 +2,9 @@ import sympy
 from sympy import S, Integer, gcd, lcm, cancel, expand, fraction
 from monomial import *
 
+def _coeff(c):
+  return f"({c})" if c.is_Add else f"{c}"
+
 class Poly(list):
   __var = None
   __fun = None
@@ -44,7 +47,7 @@ class Poly(list):
         elif c == S.One:
           r.append(f"{m}")
         else:
-          r.append(f"{m}*{c}")
+          r.append(f"{m}*{_coeff(c)}")
       return " + ".join(r)
 
   def lm(self):
@@ -431,7 +434,7 @@ class PolyDiff(Poly):
         elif c == S.One:
           r.append(f"{m.df()}")
         else:
-          r.append(f"{m.df()}*{c}")
+          r.append(f"{m.df()}*{_coeff(c)}")
       return " + ".join(r)
 
   def df_sympy(self):
@@ -445,7 +448,7 @@ class PolyDiff(Poly):
         elif c == S.One:
           r.append(f"{m.df_sympy()}")
         else:
-          r.append(f"{m.df_sympy()}*{c}")
+          r.append(f"{m.df_sympy()}*{_coeff(c)}")
       return " + ".join(r)
     
   def prolong(self, var):
@@ -537,7 +540,7 @@ class PolySchem(Poly):
         elif c == S.One:
           r.append(f"{m.T()}")
         else:
-          r.append(f"{m.T()}*{c}")
+          r.append(f"{m.T()}*{_coeff(c)}")
       return " + ".join(r)
   
 if __name__ == '__main__':
-- 
2.43.0


From 793b31795a8e73b8e0e7165958d84688a022feef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 44/62] fix: pyginv: sums of symbolic coefficients that vanish
 are dropped

---
 pyginv/polynomial.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index e51a20b..32e3752 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -99,6 +99,8 @@ class Poly(list):
         j += 1
       else:
         k = self[i][1] + other[j][1]
+        if not k.is_Rational:
+          k = cancel(k)
         if k:
           p.append([self[i][0], k])
         i += 1
@@ -134,6 +136,8 @@ class Poly(list):
         j += 1
       else:
         k = self[i][1] - other[j][1]
+        if not k.is_Rational:
+          k = cancel(k)
         if k:
           p.append([self[i][0], k])
         i += 1
@@ -167,6 +171,8 @@ class Poly(list):
           t[m] = k
     p = self.__class__()
     for m, k in sorted(t.items(), reverse=True):
+      if not k.is_Rational:
+        k = cancel(k)
       if k:
         p.append([m, k])
     assert p.assertValid()
-- 
2.43.0


From fc67bbf69c6e7b3ea70a5cbda6647f93fc52ebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 45/62] fix: pyginv: expressions in parameters that are
 declared integer are simplified too

---
 pyginv/polynomial.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index 32e3752..44effcf 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -239,7 +239,7 @@ class Poly(list):
     for mk in self:
       #mk[1] = ratsimp(mk[1]/g)
       mk[1] = mk[1]/g
-      if not mk[1].is_integer:
+      if not mk[1].is_Integer:
         mk[1] = cancel(mk[1])
     assert self.assertValid()
 
@@ -250,9 +250,9 @@ class Poly(list):
     k = gcd(self[i][1], other[0][1])
     #m2, k1, k2 = self[i][0]/other[0][0], ratsimp(other[0][1]/k), ratsimp(-self[i][1]/k)
     m2, k1, k2 = self[i][0]/other[0][0], other[0][1]/k, -self[i][1]/k
-    if not k1.is_integer:
+    if not k1.is_Integer:
         k1 = cancel(k1)
-    if not k2.is_integer:
+    if not k2.is_Integer:
         k2 = cancel(k2)
     for mk in self[:i]:
       mk[1] *= k1
@@ -270,7 +270,7 @@ class Poly(list):
       else:
         #k = ratsimp(self[i][1]*k1 + other[j][1]*k2)
         k = self[i][1]*k1 + other[j][1]*k2
-        if not k.is_integer:
+        if not k.is_Integer:
           k = expand(k)
         if k == S.Zero:
           del self[i]
@@ -291,7 +291,7 @@ class Poly(list):
     assert 0 <= i < len(self)
     assert self[i][0].divisible(other[0][0])
     m2, k2 = self[i][0]/other[0][0], -self[i][1]/other[0][1]
-    if not k2.is_integer:
+    if not k2.is_Integer:
         k2 = cancel(k2)
     del self[i]
     j, iend, jend = 1, len(self), len(other)
@@ -305,7 +305,7 @@ class Poly(list):
         j += 1
       else:
         k = self[i][1] + other[j][1]*k2
-        if not k.is_integer:
+        if not k.is_Integer:
           k = expand(k)
         if k == S.Zero:
           del self[i]
-- 
2.43.0


From f2ac06c48291278b5060b738a359caf9700de56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 46/62] fix: pyginv: normal form drops terms whose rational
 coefficient vanishes

---
 pyginv/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index 44effcf..f264082 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -305,8 +305,8 @@ class Poly(list):
         j += 1
       else:
         k = self[i][1] + other[j][1]*k2
-        if not k.is_Integer:
-          k = expand(k)
+        if not k.is_Rational:
+          k = cancel(k)
         if k == S.Zero:
           del self[i]
         else:
-- 
2.43.0


From 1e3b5e10371b5263df9f7e5d555a12845f528346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 47/62] fix: pyginv: reduction drops terms whose rational
 coefficient vanishes

---
 pyginv/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index f264082..4de76d0 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -270,8 +270,8 @@ class Poly(list):
       else:
         #k = ratsimp(self[i][1]*k1 + other[j][1]*k2)
         k = self[i][1]*k1 + other[j][1]*k2
-        if not k.is_Integer:
-          k = expand(k)
+        if not k.is_Rational:
+          k = cancel(k)
         if k == S.Zero:
           del self[i]
         else:
-- 
2.43.0


From 8a8d16601b7f9e655bce3bbcabbd40200a7187fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 48/62] fix: pyginv: Janet.setNonmut descends into the last
 branch

---
 pyginv/janet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index fdffb11..66eb468 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -270,7 +270,7 @@ class Janet:
         if isinstance(r[-1], Wrap):
           r[-1].nonmult[r[-1].lm.nonmult(m)] = True
         else:
-          setnm(n)
+          setnm(r[-1])
     setnm(self.root)
 
   def degMinProlong(self):
-- 
2.43.0


From 41982a6cbff2ddc6005c1dffbb5ce834d23dc62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 49/62] fix: pyginv: JanetCache reduces by the whole forest it
 belongs to

---
 pyginv/janet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index 66eb468..a448ec9 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -180,7 +180,7 @@ class Janet:
         r, d, v = r[min(len(r)-1, m[v])], d - m[v], v + 1
       return r if isinstance(r, Wrap) else None
 
-  def find(self, m):
+  def find(self, m, invdiv=None):
     w = self.findWrap(m)
     return w.poly if w else None
 
@@ -385,7 +385,7 @@ class JanetCache(Janet):
     super().__init__(*args)
     self.сache = {}
 
-  def find(self, m):
+  def find(self, m, invdiv=None):
     w = self.findWrap(m)
     if not w:
       return None
@@ -398,7 +398,7 @@ class JanetCache(Janet):
           r = self.сache[m]
         else:
           r = w.poly.mult(m1, sympy.S.One)
-        r.NFtail(self)
+        r.NFtail(self if invdiv is None else invdiv)
         r.pp()
         self.сache[m] = r
         #print(m1, end=" ")
@@ -417,7 +417,7 @@ class Forest(list):
     return self[m.position()].findWrap(m) if m.position() >= 0 else None
   
   def find(self, m):
-    return self[m.position()].find(m) if m.position() >= 0 else None
+    return self[m.position()].find(m, self) if m.position() >= 0 else None
 
   def __iter__(self):
     for idiv in super().__iter__():
-- 
2.43.0


From 6c73347592bcb4811b8b8df60bd0c01c0fc21e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 50/62] fix: pyginv: JanetCache prolongs differential
 polynomials by differentiation

---
 pyginv/janet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index a448ec9..a62148e 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -397,7 +397,9 @@ class JanetCache(Janet):
         if m in self.сache:
           r = self.сache[m]
         else:
-          r = w.poly.mult(m1, sympy.S.One)
+          r = w.poly
+          for v in m1.expand():
+            r = r.prolong(v)
         r.NFtail(self if invdiv is None else invdiv)
         r.pp()
         self.сache[m] = r
-- 
2.43.0


From 0d762b936d17c9956751738c7dd95739b2b95045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 51/62] fix: pyginv: completion leaves the given polynomials
 unchanged

---
 pyginv/janet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index a62148e..141239b 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -7,7 +7,7 @@ class Wrap:
 
   def __init__(self, *args):
     if len(args) == 1 and isinstance(args[0], Poly):
-      self.poly = args[0]
+      self.poly = args[0].__class__(args[0])
       self.ansector = args[0].lm().copy()
     else:
       assert len(args) == 2 and isinstance(args[0], Wrap)
-- 
2.43.0


From a2722ac5b2fc93fc4815b2c49c01b19260d25a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 52/62] fix: pyginv: ginvMin prolongs whatever the log level

---
 pyginv/ginv.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyginv/ginv.py b/pyginv/ginv.py
index f57d193..02cb952 100644
--- a/pyginv/ginv.py
+++ b/pyginv/ginv.py
@@ -151,13 +151,14 @@ def ginvMin(pset, invdiv, level=0):
   q = Q(Wrap(p) for p in pset)
   while True:
     m = q[0].lm if q else None
-    if level > 0:
-      if m:
+    if m:
+      if level > 0:
         print(f"prolong {m}")
-        q.push(invdiv.prolongMonom(m))
-      else:
+      q.push(invdiv.prolongMonom(m))
+    else:
+      if level > 0:
         print("prolongAll")
-        q.push(invdiv.prolongAll())
+      q.push(invdiv.prolongAll())
     if not q:
       break
     r = q.reduceAll(invdiv)
-- 
2.43.0


From 19c904e9bd1dfa11ee664198fa52800594a04b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 53/62] fix: pyginv: ginvBlockLow treats elements of degree
 zero

---
 pyginv/ginv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyginv/ginv.py b/pyginv/ginv.py
index 02cb952..ceabad6 100644
--- a/pyginv/ginv.py
+++ b/pyginv/ginv.py
@@ -198,9 +198,9 @@ def ginvBlockLow(pset, invdiv, level=0):
     i = invdiv.degMinProlong()
     if level > 0:
       print(f"prolong {i}, Q {j}")
-    if i == 0 and j == 0:
+    if i == 0 and not q:
       break
-    if j == 0 or 0 < i < j:
+    if not q or 0 < i < j:
       q.push(invdiv.prolongDeg(i))
     res = q.reduceMinDegree(invdiv)
     if res:
-- 
2.43.0


From 689e47b3ca6aa5c3571f7f7bd7a9ab5e5cd97331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 54/62] fix: pyginv: the product criterion holds for
 polynomials only, not for module elements

---
 pyginv/janet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index 141239b..a7afa9d 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -80,6 +80,7 @@ class Wrap:
 
   def crit1(self, other):
     return type(self.poly) == Poly and\
+        self.ansector.position() < 0 and\
         all(i == 0 or j == 0 for i, j in zip(self.ansector, other.ansector))
 
   def crit2(self, other):
-- 
2.43.0


From a8f3da3e3616c7d8fcc9934a15fc62138fd79038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 55/62] fix: pyginv: JanetCache does not reuse prolongations of
 an earlier divisor

---
 pyginv/janet.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index a7afa9d..bf8b342 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -395,15 +395,14 @@ class JanetCache(Janet):
       if not m1:
         r = w.poly
       else:
-        if m in self.сache:
-          r = self.сache[m]
-        else:
+        r, w1, lm = self.сache.get(m, (None, None, None))
+        if w1 is not w or lm != w.lm:
           r = w.poly
           for v in m1.expand():
             r = r.prolong(v)
         r.NFtail(self if invdiv is None else invdiv)
         r.pp()
-        self.сache[m] = r
+        self.сache[m] = r, w, w.lm
         #print(m1, end=" ")
     return r
 
-- 
2.43.0


From 6f5983ebf0d6f2e5b0d435040c409d2db5f9ced7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 56/62] fix: pyginv: cancel clears the denominators of
 coefficients that are sums

---
 pyginv/polynomial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index 4de76d0..210ce48 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -1,5 +1,5 @@
 import sympy
-from sympy import S, Integer, gcd, lcm, cancel, expand, fraction
+from sympy import S, Integer, gcd, lcm, cancel, expand, fraction, together
 from monomial import *
 
 def _coeff(c):
@@ -222,9 +222,9 @@ class Poly(list):
 
   def cancel(self):#TODO
     assert self
-    l = fraction(self[0][1])[1]
+    l = fraction(together(self[0][1]))[1]
     for mk in self[1:]:
-      l = lcm(l, fraction(mk[1])[1])
+      l = lcm(l, fraction(together(mk[1]))[1])
     for mk in self:
       mk[1] = cancel(mk[1]*l)
     assert self.assertValid()
-- 
2.43.0


From 20bc4ff1efe03e2598e42fd27d960d5354a6402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 57/62] fix: pyginv: derivatives of coefficients that vanish
 are dropped

---
 pyginv/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index 210ce48..4a9bf6c 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -206,7 +206,7 @@ class Poly(list):
   def diff(self, dv):
     p = self.__class__()
     for m, k in self:
-      k = sympy.diff(k, dv)
+      k = cancel(sympy.diff(k, dv))
       if k:
         p.append([m, k])
     assert p.assertValid()
@@ -463,7 +463,7 @@ class PolyDiff(Poly):
       if m:
         p1.append([m.prolong(var), k])
     for m, k in self:
-      k = sympy.diff(k, PolyDiff.__var[var])
+      k = cancel(sympy.diff(k, PolyDiff.__var[var]))
       if k:
         p2.append([m, k])
     return p1 + p2
-- 
2.43.0


From 5b49e47be22cbe3751ba3375160c800fef03fe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:45 +0000
Subject: [PATCH 58/62] fix: randpermutation of no or a negative number of
 elements in the extension raises instead of aborting

---
 cython/ginv.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index b6c6e37..4dee8b3 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -129,6 +129,7 @@ cdef extern from "randpermutation.h" namespace "GInv":
 cdef class randpermutation:
   cdef RandPermutation_mt19937 *ptr
   def __cinit__(self, int n):
+    assert n > 0
     self.ptr = new RandPermutation_mt19937(n)
   def __dealloc__(self):
     del self.ptr
-- 
2.43.0


From f727c8c9bfb50ad6e66fcc340dc17cf144e0a641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:45 +0000
Subject: [PATCH 59/62] fix: monom.next before rand_init in the extension
 raises instead of crashing

---
 cython/ginv.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 4dee8b3..3298f7e 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -331,6 +331,8 @@ cdef class const_monom:
     assert self.ptr.size() == other.ptr.size()
     return self.ptr.alex(other.ptr[0])
 
+cdef bint monom_rand_ready=False
+
 cdef class monom(const_monom):
   cdef Allocator allocator
   def __dealloc__(self):
@@ -353,9 +355,12 @@ cdef class monom(const_monom):
   @staticmethod
   def rand_init(int size, int deg1, int deg2):
     assert size > 1 and 0 < deg1 < deg2
+    global monom_rand_ready
     monom_rand_init(size, deg1, deg2)
+    monom_rand_ready = True
   @staticmethod
   def next():
+    assert monom_rand_ready
     r = monom()
     r.ptr = monom_next(&r.allocator)
     return r
-- 
2.43.0


From 075db454f1e645d8deb1cb4625b4c157fcf4c458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:08 +0000
Subject: [PATCH 60/62] fix: the basis of the unit ideal is iterated as its one
 element instead of nothing

---
 ginv/poly_int.cpp | 1 +
 ginv/poly_int.h   | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index d48deb1..9954849 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -578,6 +578,7 @@ void JanetPolyInt::setOne(int order, int size) {
 
   Allocator allocator[1];
   mOneWrap = new WrapPolyInt(PolyInt(allocator, order, size, "0x1"));
+  mOne.push(mOneWrap);
 }
 
 void JanetPolyInt::prolong(WrapPolyInt *w) {
diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index 24e36f0..5fca55c 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -357,6 +357,7 @@ template <typename D> bool PolyInt::isNf(D &a) const {
 
 class JanetPolyInt {
   WrapPolyInt*         mOneWrap;
+  GCListWrapPolyInt    mOne; // mOneWrap, to be iterated
 
   GCListWrapPolyInt    mQ;
   GCListWrapPolyInt    mT;
@@ -383,6 +384,7 @@ class JanetPolyInt {
 public:
   explicit JanetPolyInt():
       mOneWrap(nullptr),
+      mOne(),
       mQ(),
       mT(),
       mPos(-2),
@@ -428,7 +430,7 @@ public:
 
   int size() const {  return (mOneWrap)? 1: mT.length(); }
   GCListWrapPolyInt::ConstIterator begin() const {
-    return mT.begin();
+    return (mOneWrap)? mOne.begin(): mT.begin();
   }
   WrapPolyInt* find(const Monom &m) const {
     if (mOneWrap)
-- 
2.43.0


From c60c6bc64271da4c66c23e19b4ddb19a9c250948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:08 +0000
Subject: [PATCH 61/62] fix: the extension refuses unset objects, None and
 monomials of another ring instead of crashing

---
 cython/ginv.pyx | 52 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 3298f7e..3289783 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -75,13 +75,17 @@ cdef class const_timer:
     self.ptr = NULL
 
   def userTime(self):
+    assert self.ptr
     return self.ptr.userTime()
   def sysTime(self):
+    assert self.ptr
     return self.ptr.sysTime()
   def realTime(self):
+    assert self.ptr
     return self.ptr.realTime()
 
   def __str__(self):
+    assert self.ptr
     return "userTime: %.2f, sysTime: %.2f, realTime: %.2f" % (\
         self.ptr.userTime(),\
         self.ptr.sysTime(),\
@@ -285,12 +289,12 @@ cdef class const_monom:
     assert self.ptr
     return "[%d %d:%s]" % (self.ptr.pos(), self.ptr.degree(), " ".join(str(v) for v in self))
 
-  def divisiable(const_monom self, const_monom other):
+  def divisiable(const_monom self, const_monom other not None):
     assert self.ptr and other.ptr
     assert self.ptr.size() == other.ptr.size()
     return self.ptr.divisiable(other.ptr[0])
 
-  def permutation(const_monom self, randpermutation p):
+  def permutation(const_monom self, randpermutation p not None):
     assert self.ptr
     assert len(self) == len(p)
     r = monom()
@@ -298,7 +302,7 @@ cdef class const_monom:
     (<Monom*>r.ptr)[0].permutation(self.ptr[0], p.ptr[0])
     return r
 
-  def __mul__(const_monom self, const_monom other):
+  def __mul__(const_monom self, const_monom other not None):
     assert self.ptr and other.ptr
     assert self.ptr.size() == other.ptr.size()
     assert self.pos() == -1 or other.pos() == -1
@@ -311,22 +315,22 @@ cdef class const_monom:
     r = monom()
     r.ptr = new Monom(&r.allocator, self.ptr[0], other)
     return r
-  def __truediv__(const_monom self, const_monom other):
+  def __truediv__(const_monom self, const_monom other not None):
     assert self.divisiable(other)
     r = monom()
     r.ptr = new Monom(&r.allocator, self.ptr[0])
     (<Monom*>r.ptr)[0].div(other.ptr[0])
     return r
 
-  def lex(const_monom self, const_monom other):
+  def lex(const_monom self, const_monom other not None):
     assert self.ptr and other.ptr
     assert self.ptr.size() == other.ptr.size()
     return self.ptr.lex(other.ptr[0])
-  def deglex(const_monom self, const_monom other):
+  def deglex(const_monom self, const_monom other not None):
     assert self.ptr and other.ptr
     assert self.ptr.size() == other.ptr.size()
     return self.ptr.deglex(other.ptr[0])
-  def alex(const_monom self, const_monom other):
+  def alex(const_monom self, const_monom other not None):
     assert self.ptr and other.ptr
     assert self.ptr.size() == other.ptr.size()
     return self.ptr.alex(other.ptr[0])
@@ -469,11 +473,13 @@ cdef class const_poly_int:
     r.ptr = &self.ptr.lc()
     r.owner = self
     return r
-  def comparable(self, const_poly_int other):
+  def comparable(self, const_poly_int other not None):
+    assert self.ptr and other.ptr
     return self.ptr.comparable(other.ptr[0])
 
   def order(self):
     cdef int c
+    assert self.ptr
     c = self.ptr.order()
     if c & 0x10:
       r = "TOP"
@@ -487,6 +493,7 @@ cdef class const_poly_int:
       r = (r, "alex")
     return r
   def size(self):
+    assert self.ptr
     return self.ptr.size()
 
   def __neg__(self):
@@ -563,7 +570,7 @@ cdef class const_poly_int:
     return self.mul(other)
 
   def __pow__(const_poly_int self, int other, modulo):
-    assert other >= 0
+    assert self.ptr and other >= 0
     r = poly_int()
     r.ptr = new PolyInt(&r.allocator, self.ptr[0])
     (<PolyInt *>r.ptr).pow(other)
@@ -579,7 +586,7 @@ cdef class poly_int(const_poly_int):
     del self.ptr
 
   @staticmethod
-  def to_monom(pos, order, const_monom a):
+  def to_monom(pos, order, const_monom a not None):
     assert pos in ("TOP", "POT")
     assert order in ("lex", "deglex", "alex")
     assert a.ptr
@@ -598,7 +605,7 @@ cdef class poly_int(const_poly_int):
     r.ptr = new PolyInt(&r.allocator, k, a.ptr[0])
     return r
 
-  def reduction(poly_int self, const_poly_int other):
+  def reduction(poly_int self, const_poly_int other not None):
     assert self.ptr and other.ptr
     assert len(self) and len(other)
     assert self.ptr.comparable((<const_poly_int>other).ptr[0])
@@ -629,31 +636,38 @@ cdef class wrap_poly_int:
     self.ptr = NULL
 
   def lm(self):
+    assert self.ptr
     r = const_monom()
     r.ptr = &self.ptr.lm()
     r.owner = self
     return r
   def ansector(self):
+    assert self.ptr
     r = const_monom()
     r.ptr = &self.ptr.ansector()
     r.owner = self
     return r
   def isGB(self):
+    assert self.ptr
     return self.ptr.isGB()
 
   def NM(self, int var):
+    assert self.ptr
     assert 0 <= var < self.ptr.lm().size()
     return self.ptr.NM(var)
   def build(self, int var):
+    assert self.ptr
     assert 0 <= var < self.ptr.lm().size()
     return self.ptr.build(var)
   def poly(self):
+    assert self.ptr
     r = const_poly_int()
     r.ptr = &self.ptr.poly()
     r.owner = self
     return r
 
   def __str__(self):
+    assert self.ptr
     return "%s%s[%s]" % (self.lm(), self.ansector(),\
         "".join("*" if self.ptr.NM(var) else " " for 0 <= var < self.ptr.lm().size()))
 
@@ -746,11 +760,12 @@ cdef class janet_poly_int:
       i.next()
       yield r
 
-  def comparable(self, const_poly_int other):
+  def comparable(self, const_poly_int other not None):
+    assert other.ptr
     return self.ptr.comparable(other.ptr[0])
 
-  def push(self, const_poly_int other):
-    assert self.ptr.comparable(other.ptr[0])
+  def push(self, const_poly_int other not None):
+    assert other.ptr and self.ptr.comparable(other.ptr[0])
     self.ptr.push(other.ptr[0])
     return self
 
@@ -760,8 +775,11 @@ cdef class janet_poly_int:
   def isOne(self):
     return self.ptr.isOne()
 
-  def find(self, const_monom m):
+  def find(self, const_monom m not None):
     cdef WrapPolyInt* w
+    assert m.ptr
+    assert self.ptr.size() == 0 or \
+      self.ptr.begin().data().lm().size() == m.ptr.size()
     w = self.ptr.find(m.ptr[0])
     if w == NULL:
       return None
@@ -771,8 +789,8 @@ cdef class janet_poly_int:
       r.owner = self
       return r
 
-  def nf(self, poly_int p):
-    assert self.ptr.comparable(p.ptr[0])
+  def nf(self, poly_int p not None):
+    assert p.ptr and self.ptr.comparable(p.ptr[0])
     self.ptr.nf((<PolyInt *>p.ptr)[0])
     return p
 
-- 
2.43.0


From fcd67f6952bb88da4596bd8b6b0d71dce1b2c672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:09 +0000
Subject: [PATCH 62/62] fix: a permutation of the extension can be iterated:
 positions out of range raise IndexError

---
 cython/ginv.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 3289783..b5b1d4b 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -141,7 +141,8 @@ cdef class randpermutation:
   def __len__(self):
     return self.ptr.size()
   def __getitem__(self, k):
-    assert 0 <= k < self.ptr.size()
+    if not 0 <= k < self.ptr.size():
+      raise IndexError(k)
     return self.ptr.get(k)
 
   def next(self):
-- 
2.43.0

