From 9bb2b526b25a612e6c59ddd8dd62243ee5a0ed47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 01/64] fix: tokenize an empty constraint text without
 accessing its last token

---
 include/vara/Feature/ConstraintParser.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index 57f8aa9..34f15ef 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -129,9 +129,11 @@ public:
     }
 
     // ensure last token is always either EOF or an error
-    if (auto Kind = TokenList.back().getKind();
-        Kind != ConstraintToken::ConstraintTokenKind::END_OF_FILE &&
-        Kind != ConstraintToken::ConstraintTokenKind::ERROR) {
+    if (TokenList.empty() ||
+        (TokenList.back().getKind() !=
+             ConstraintToken::ConstraintTokenKind::END_OF_FILE &&
+         TokenList.back().getKind() !=
+             ConstraintToken::ConstraintTokenKind::ERROR)) {
       TokenList.push_back(
           ConstraintToken(ConstraintToken::ConstraintTokenKind::END_OF_FILE));
     }
-- 
2.43.0


From 1dea6c50bf59899a07fd63e221fa441abc899f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 02/64] fix: tokenize an empty step function text without
 accessing its last token

---
 include/vara/Feature/StepFunctionParser.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/StepFunctionParser.h b/include/vara/Feature/StepFunctionParser.h
index faf7288..a5616e3 100644
--- a/include/vara/Feature/StepFunctionParser.h
+++ b/include/vara/Feature/StepFunctionParser.h
@@ -68,9 +68,10 @@ public:
     }
 
     // ensure last token is always either EOF or an error
-    if (auto Kind = TokenList.back().getKind();
-        Kind != StepFunctionToken::TokenKind::END_OF_FILE &&
-        Kind != StepFunctionToken::TokenKind::ERROR) {
+    if (TokenList.empty() ||
+        (TokenList.back().getKind() !=
+             StepFunctionToken::TokenKind::END_OF_FILE &&
+         TokenList.back().getKind() != StepFunctionToken::TokenKind::ERROR)) {
       TokenList.push_back(
           StepFunctionToken(StepFunctionToken::TokenKind::END_OF_FILE));
     }
-- 
2.43.0


From 689bf1c26fbde472c6b261098ce63cd218018d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 03/64] fix: lex + and - after an integer literal as operators

---
 include/vara/Feature/ConstraintParser.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index 34f15ef..d857a67 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -246,9 +246,22 @@ private:
   }
 
   static ResultTy munchNumber(const llvm::StringRef &Str) {
-    auto Munch = Str.take_while([](auto C) {
-      return llvm::isDigit(C) || C == 'e' || C == 'E' || C == '+' || C == '-';
-    });
+    auto Munch = Str.take_while([](auto C) { return llvm::isDigit(C); });
+
+    // an exponent only belongs to the number if it is complete
+    auto Exponent = Str.drop_front(Munch.size());
+    if (!Exponent.empty() &&
+        (Exponent.front() == 'e' || Exponent.front() == 'E')) {
+      Exponent = Exponent.drop_front();
+      if (!Exponent.empty() &&
+          (Exponent.front() == '+' || Exponent.front() == '-')) {
+        Exponent = Exponent.drop_front();
+      }
+      Exponent = Exponent.drop_while([](auto C) { return llvm::isDigit(C); });
+      if (llvm::isDigit(*std::prev(Exponent.begin()))) {
+        Munch = Str.drop_back(Exponent.size());
+      }
+    }
 
     return {ConstraintToken(ConstraintToken::ConstraintTokenKind::NUMBER,
                             Munch.lower()),
-- 
2.43.0


From 7f3080006b11406b65fa72d6049a813e8b9b8d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 04/64] fix: reject step functions with malformed numbers

---
 include/vara/Feature/StepFunctionParser.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/StepFunctionParser.h b/include/vara/Feature/StepFunctionParser.h
index a5616e3..b470e65 100644
--- a/include/vara/Feature/StepFunctionParser.h
+++ b/include/vara/Feature/StepFunctionParser.h
@@ -201,7 +201,10 @@ private:
       case StepFunctionToken::TokenKind::NUMBER:
         assert(peek().getValue().has_value());
         double Number;
-        llvm::StringRef(*next().getValue()).getAsDouble(Number);
+        if (llvm::StringRef(*next().getValue()).getAsDouble(Number)) {
+          llvm::errs() << "Syntax error: Malformed number.\n";
+          return std::nullopt;
+        }
         return {Number};
       }
     }
-- 
2.43.0


From f7045956b4319a49b0f93028b87d7e2d8ffbdeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 05/64] fix: refuse edges that make a feature its own ancestor

---
 include/vara/Feature/FeatureModelTransaction.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 1946bc1..423c2a3 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -783,8 +783,10 @@ public:
       return MISSING_PARENT;
     }
 
-    if (C == P) {
-      return RECURSIVE_EDGE;
+    for (auto *Ancestor = P; Ancestor; Ancestor = Ancestor->getParent()) {
+      if (Ancestor == C) {
+        return RECURSIVE_EDGE;
+      }
     }
 
     if (C->getParent()) {
-- 
2.43.0


From 8dd95619f579baa4dc92907c42a9dd78718fef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 06/64] fix: remove only relationships of the given feature and
 report if there is none

---
 include/vara/Feature/FeatureModelTransaction.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 423c2a3..b852627 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -463,7 +463,11 @@ public:
       return MISSING_PARENT;
     }
 
-    auto Relationships = P->getChildren<Relationship>();
+    // relationships of child features must not be considered
+    auto Relationships = P->getChildren<Relationship>(1);
+    if (Relationships.empty()) {
+      return MISSING_CHILD;
+    }
     Relationship *R = *Relationships.begin();
 
     removeEdge(*P, *R);
-- 
2.43.0


From b7dc0f7c073398452f41f8de0655234e884ac4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 07/64] fix: report a missing parent when adding a relationship

---
 include/vara/Feature/FeatureModelTransaction.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index b852627..b5066fe 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -402,18 +402,21 @@ public:
   }
 
   Result<FTErrorCode, Relationship *> operator()(FeatureModel &FM) {
-    auto *InsertedRelationship =
-        addRelationship(FM, std::make_unique<Relationship>(Kind));
-    if (!InsertedRelationship) {
-      return ERROR;
-    }
-
     auto *P = std::visit(
         Overloaded{
             [&FM](const std::string &Name) { return FM.getFeature(Name); },
             [](Feature *Ptr) { return Ptr; },
         },
         Parent);
+    if (!P) {
+      return MISSING_PARENT;
+    }
+
+    auto *InsertedRelationship =
+        addRelationship(FM, std::make_unique<Relationship>(Kind));
+    if (!InsertedRelationship) {
+      return ERROR;
+    }
 
     setParent(*InsertedRelationship, *P);
     addEdge(*P, *InsertedRelationship);
-- 
2.43.0


From 86a7486504d0309c9c84924d77723b5f987cbe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 08/64] fix: keep existing relationships when adding another
 one to the same feature

---
 include/vara/Feature/FeatureModelTransaction.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index b5066fe..3eb4abe 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -421,7 +421,8 @@ public:
     setParent(*InsertedRelationship, *P);
     addEdge(*P, *InsertedRelationship);
 
-    for (auto *C : P->getChildren<Feature>()) {
+    // children that are already part of a relationship stay there
+    for (auto *C : P->getChildren<Feature>(1)) {
       assert(P->hasEdgeTo(*C) && C->hasEdgeFrom(*P));
       removeEdge(*P, *C);
       addEdge(*InsertedRelationship, *C);
-- 
2.43.0


From da955dd9457dace0f65c865ed6610190d471a97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 09/64] fix: report a missing feature when adding or removing
 locations

---
 .../vara/Feature/FeatureModelTransaction.h    | 36 ++++++++++---------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 3eb4abe..a0a5283 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -509,14 +509,16 @@ public:
   }
 
   Result<FTErrorCode> operator()(FeatureModel &FM) {
-    addLocation(*std::visit(Overloaded{
-                                [&FM](const std::string &Name) {
-                                  return FM.getFeature(Name);
-                                },
-                                [](Feature *Ptr) { return Ptr; },
-                            },
-                            F),
-                FSR);
+    auto *ActualFeature = std::visit(
+        Overloaded{
+            [&FM](const std::string &Name) { return FM.getFeature(Name); },
+            [](Feature *Ptr) { return Ptr; },
+        },
+        F);
+    if (!ActualFeature) {
+      return MISSING_FEATURE;
+    }
+    addLocation(*ActualFeature, FSR);
     return Ok();
   }
 
@@ -544,14 +546,16 @@ public:
   }
 
   Result<FTErrorCode> operator()(FeatureModel &FM) {
-    removeLocation(*std::visit(Overloaded{
-                                   [&FM](const std::string &Name) {
-                                     return FM.getFeature(Name);
-                                   },
-                                   [](Feature *Ptr) { return Ptr; },
-                               },
-                               F),
-                   FSR);
+    auto *ActualFeature = std::visit(
+        Overloaded{
+            [&FM](const std::string &Name) { return FM.getFeature(Name); },
+            [](Feature *Ptr) { return Ptr; },
+        },
+        F);
+    if (!ActualFeature) {
+      return MISSING_FEATURE;
+    }
+    removeLocation(*ActualFeature, FSR);
     return Ok();
   }
 
-- 
2.43.0


From c63e691dc65e93ea0453ebf668e9ad2a2c2f2f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 10/64] fix: removing an absent source location does nothing

---
 include/vara/Feature/Feature.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/Feature.h b/include/vara/Feature/Feature.h
index d44e9ec..2a25b8a 100644
--- a/include/vara/Feature/Feature.h
+++ b/include/vara/Feature/Feature.h
@@ -99,7 +99,11 @@ public:
 
   std::vector<FeatureSourceRange>::iterator
   removeLocation(const FeatureSourceRange &Fsr) {
-    return Locations.erase(std::find(Locations.begin(), Locations.end(), Fsr));
+    auto Loc = std::find(Locations.begin(), Locations.end(), Fsr);
+    if (Loc == Locations.end()) {
+      return Loc;
+    }
+    return Locations.erase(Loc);
   }
 
   bool updateLocation(const FeatureSourceRange &OldFsr,
-- 
2.43.0


From d21ae316a1f0776a68cb22bc2bd1796da295540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 11/64] fix: remove all empty relationships together with their
 feature

---
 include/vara/Feature/FeatureModelTransaction.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index a0a5283..ca69458 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -368,8 +368,9 @@ public:
       if (!F->getChildren<Feature>().empty()) {
         return NON_LEAF_NODE;
       }
-      if (!F->getChildren<Relationship>().empty()) {
-        removeRelationship(FM, *F->getChildren<Relationship>().begin());
+      for (auto *R : F->getChildren<Relationship>()) {
+        removeEdge(*F, *R);
+        removeRelationship(FM, R);
       }
     }
 
-- 
2.43.0


From ea90482284741bf881331303f5dfc3ec7c836e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 12/64] fix: refuse to remove the root of a feature model

---
 include/vara/Feature/FeatureModelTransaction.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index ca69458..d38a553 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -353,6 +353,10 @@ public:
     if (!F) {
       return MISSING_FEATURE;
     }
+    if (F == FM.getRoot()) {
+      // a feature model cannot exist without its root
+      return ERROR;
+    }
 
     if (Recursive) {
       for (auto *C : F->getChildren<Feature>()) {
-- 
2.43.0


From 5f8848812e8c76c69d6a87dc82b22ece9d87b8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 13/64] fix: remove nested feature sets in any order and never
 the root

---
 lib/Feature/FeatureModelTransaction.cpp | 33 ++++++++++++++++---------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index 3e005f5..b694651 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -55,7 +55,9 @@ std::optional<bool> fvIsLeaf(FeatureModel &FM, detail::FeatureVariantTy &FV) {
   if (ActualFeature == nullptr) {
     return std::nullopt;
   }
-  return std::optional<bool>{ActualFeature->isLeaf()};
+  // the root cannot be deleted, and a relationship without members is no child
+  return std::optional<bool>{ActualFeature != FM.getRoot() &&
+                             ActualFeature->getChildren<Feature>().empty()};
 }
 
 /// Checks if in recursive mode the provided Feature can be deleted or not.
@@ -64,8 +66,9 @@ std::optional<bool> fvIsLeaf(FeatureModel &FM, detail::FeatureVariantTy &FV) {
 /// \param FV
 /// \param OtherFeatures
 /// \return optional of true, if all transitive children of FV are not part of
-/// OtherFeatures; optional of false, if at least one transitive child of FV is
-/// part of OtherFeatures; nullopt, if FV is not part of FM
+/// OtherFeatures; optional of false, if FV is the root or at least one
+/// transitive child of FV is part of OtherFeatures; nullopt, if FV is not part
+/// of FM
 std::optional<bool>
 canBeDeletedRecursively(FeatureModel &FM, detail::FeatureVariantTy &FV,
                         const std::set<FeatureTreeNode *> &OtherFeatures) {
@@ -74,15 +77,21 @@ canBeDeletedRecursively(FeatureModel &FM, detail::FeatureVariantTy &FV,
     return std::nullopt;
   }
 
-  std::set<FeatureTreeNode *> Intersection;
-  auto AllChildrenInSubtree = ActualFeature->getChildren();
-  std::set_intersection(AllChildrenInSubtree.begin(),
-                        AllChildrenInSubtree.end(), OtherFeatures.begin(),
-                        OtherFeatures.end(),
-                        std::inserter(Intersection, Intersection.begin()));
-  // if the children are not matching the other features, the intersection is
-  // empty and we are good to go for deletion
-  return std::optional<bool>{Intersection.begin() == Intersection.end()};
+  if (ActualFeature == FM.getRoot()) {
+    return std::optional<bool>{false};
+  }
+
+  // if no other feature lies below this one we are good to go for deletion
+  return std::optional<bool>{std::none_of(
+      OtherFeatures.begin(), OtherFeatures.end(),
+      [ActualFeature](FeatureTreeNode *Other) {
+        for (auto *P = Other->getParent(); P; P = P->getParent()) {
+          if (P == ActualFeature) {
+            return true;
+          }
+        }
+        return false;
+      })};
 }
 
 std::vector<detail::FeatureVariantTy> removeFeatures(
-- 
2.43.0


From e096cefae0852ef72a45bbf556db3f24460bf072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 14/64] fix: remove constraints together with the features they
 mention

---
 lib/Feature/FeatureModel.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/lib/Feature/FeatureModel.cpp b/lib/Feature/FeatureModel.cpp
index 56a1040..b169091 100644
--- a/lib/Feature/FeatureModel.cpp
+++ b/lib/Feature/FeatureModel.cpp
@@ -2,6 +2,8 @@
 #include "vara/Feature/FeatureModelBuilder.h"
 #include "vara/Feature/FeatureModelParser.h"
 
+#include "llvm/ADT/SmallSet.h"
+#include "llvm/ADT/SmallVector.h"
 #include "llvm/Support/Casting.h"
 #include "llvm/Support/MemoryBuffer.h"
 
@@ -34,6 +36,35 @@ void FeatureModel::removeFeature(Feature &F) {
   if (&F == Root) {
     Root = nullptr;
   }
+
+  // constraints that mention the feature must not outlive it
+  llvm::SmallSet<Constraint *, 3> Removed;
+  for (auto *C : F.constraints()) {
+    Removed.insert(C->getRoot());
+  }
+  if (!Removed.empty()) {
+    for (auto &KV : Features) {
+      llvm::SmallVector<Constraint *, 3> Mentions(
+          KV.getValue()->constraints().begin(),
+          KV.getValue()->constraints().end());
+      for (auto *C : Mentions) {
+        if (Removed.count(C->getRoot())) {
+          KV.getValue()->removeConstraintNonPreserve(C);
+        }
+      }
+    }
+    auto EraseRemoved = [&Removed](auto &Constraints) {
+      Constraints.erase(std::remove_if(Constraints.begin(), Constraints.end(),
+                                       [&Removed](const auto &C) {
+                                         return Removed.count(**C) != 0;
+                                       }),
+                        Constraints.end());
+    };
+    EraseRemoved(BooleanConstraints);
+    EraseRemoved(NonBooleanConstraints);
+    EraseRemoved(MixedConstraints);
+  }
+
   Features.erase(F.getName());
 }
 
-- 
2.43.0


From d13fc0920737bd3376238be30a506dad90e12e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 15/64] fix: add no constraint to a model that lacks one of its
 features

---
 .../vara/Feature/FeatureModelTransaction.h    | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index d38a553..a854c18 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -589,14 +589,17 @@ public:
   }
 
   Result<FTErrorCode, Constraint *> operator()(FeatureModel &FM) {
+    // nothing may be left behind in the model if a feature is missing
+    auto Check = AddConstraintToModelVisitor(&FM, true);
+    if (!(**NewConstraint)->accept(Check)) {
+      return MISSING_FEATURE;
+    }
     auto *InsertedConstraint = addConstraint(FM, std::move(NewConstraint));
     if (!InsertedConstraint) {
       return ERROR;
     }
     auto V = AddConstraintToModelVisitor(&FM);
-    if (!InsertedConstraint->accept(V)) {
-      return MISSING_FEATURE;
-    }
+    InsertedConstraint->accept(V);
     return InsertedConstraint;
   }
 
@@ -604,7 +607,8 @@ private:
   class AddConstraintToModelVisitor : public ConstraintVisitor {
 
   public:
-    AddConstraintToModelVisitor(FeatureModel *FM) : FM(FM) {}
+    AddConstraintToModelVisitor(FeatureModel *FM, bool CheckOnly = false)
+        : FM(FM), CheckOnly(CheckOnly) {}
 
     bool visit(PrimaryFeatureConstraint *C) override {
       auto *F = FM->getFeature(C->getFeature()->getName());
@@ -612,13 +616,16 @@ private:
         return false;
       }
 
-      AddConstraintToModel::setFeature(*C, *F);
-      AddConstraintToModel::addConstraint(*F, *C);
+      if (!CheckOnly) {
+        AddConstraintToModel::setFeature(*C, *F);
+        AddConstraintToModel::addConstraint(*F, *C);
+      }
       return true;
     };
 
   private:
     FeatureModel *FM;
+    bool CheckOnly;
   };
 
   AddConstraintToModel(std::unique_ptr<ConstraintTy> NewConstraint)
-- 
2.43.0


From 465d084c9480e03b82995761758adf70024101fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 16/64] fix: execute addChild in copy transactions and report
 missing features

---
 .../vara/Feature/FeatureModelTransaction.h    | 103 ++++++++++--------
 1 file changed, 59 insertions(+), 44 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index a854c18..585c7af 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -863,8 +863,12 @@ protected:
     if (Parent) {
       // To correctly add a parent, we need to translate it to a Feature in
       // our copied FeatureModel
+      auto *TranslatedParent = FM->getFeature(Parent->getName());
+      if (!TranslatedParent) {
+        return MISSING_PARENT;
+      }
       return FeatureModelModification::makeModification<AddFeatureToModel>(
-          std::move(NewFeature), translateFeature(*Parent))(*FM);
+          std::move(NewFeature), TranslatedParent)(*FM);
     }
 
     return FeatureModelModification::makeModification<AddFeatureToModel>(
@@ -875,14 +879,7 @@ protected:
     assert(FM && "FeatureModel is null.");
 
     FeatureModelModification::makeModification<RemoveFeatureFromModel>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)),
-        Recursive)(*FM);
+        translateFeature(F), Recursive)(*FM);
   }
 
   Result<FTErrorCode, Relationship *>
@@ -893,54 +890,28 @@ protected:
     }
 
     return FeatureModelModification::makeModification<AddRelationshipToModel>(
-        Kind, translateFeature(*std::visit(Overloaded{
-                                               [this](const std::string &Name) {
-                                                 return FM->getFeature(Name);
-                                               },
-                                               [](Feature *Ptr) { return Ptr; },
-                                           },
-                                           Parent)))(*FM);
+        Kind, translateFeature(Parent))(*FM);
   }
 
   void removeRelationshipImpl(const FeatureVariantTy &F) {
     assert(FM && "Feature model is null.");
 
     FeatureModelModification::makeModification<RemoveRelationshipFromModel>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)))(*FM);
+        translateFeature(F))(*FM);
   }
 
   void addLocationImpl(const FeatureVariantTy &F, FeatureSourceRange FSR) {
     assert(FM && "FeatureModel is null.");
 
     FeatureModelModification::makeModification<AddLocationToFeature>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)),
-        std::move(FSR))(*FM);
+        translateFeature(F), std::move(FSR))(*FM);
   }
 
   void removeLocationImpl(const FeatureVariantTy &F, FeatureSourceRange &FSR) {
     assert(FM && "FeatureModel is null.");
 
     FeatureModelModification::makeModification<RemoveLocationFromFeature>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)),
-        FSR)(*FM);
+        translateFeature(F), FSR)(*FM);
   }
 
   template <class ConstraintTy>
@@ -983,15 +954,59 @@ protected:
         *FM);
   }
 
-  static void addChildImpl(const FeatureTreeNodeVariantTy &Parent,
-                           const FeatureTreeNodeVariantTy &Child) {
-    FeatureModelModification::makeModification<AddChild>(Parent, Child);
+  Result<FTErrorCode> addChildImpl(const FeatureTreeNodeVariantTy &Parent,
+                                   const FeatureTreeNodeVariantTy &Child) {
+    if (!FM) {
+      return ERROR;
+    }
+
+    return FeatureModelModification::makeModification<AddChild>(
+        translateNode(Parent), translateNode(Child))(*FM);
   }
 
 private:
   bool Continue{true};
-  [[nodiscard]] Feature *translateFeature(Feature &F) {
-    return FM->getFeature(F.getName());
+
+  /// Refer to a feature by name, so it is looked up in our copied FeatureModel.
+  [[nodiscard]] static FeatureVariantTy
+  translateFeature(const FeatureVariantTy &F) {
+    return std::visit(Overloaded{
+                          [](const std::string &Name) { return Name; },
+                          [](Feature *Ptr) { return Ptr->getName().str(); },
+                      },
+                      F);
+  }
+
+  /// Translate a node to its counterpart in our copied FeatureModel, where a
+  /// relationship is identified by its parent and position.
+  [[nodiscard]] FeatureTreeNodeVariantTy
+  translateNode(const FeatureTreeNodeVariantTy &N) {
+    if (std::holds_alternative<std::string>(N)) {
+      return N;
+    }
+    auto *Node = std::get<FeatureTreeNode *>(N);
+    if (auto *F = llvm::dyn_cast_or_null<Feature>(Node)) {
+      return F->getName().str();
+    }
+    auto *R = llvm::dyn_cast_or_null<Relationship>(Node);
+    for (const auto &Copied : std::as_const(*FM).relationships()) {
+      if (Copied.get() == R) {
+        return N;
+      }
+    }
+    auto *P = R ? llvm::dyn_cast_or_null<Feature>(R->getParent()) : nullptr;
+    auto *TranslatedParent = P ? FM->getFeature(P->getName()) : nullptr;
+    if (TranslatedParent) {
+      auto Index = std::count_if(
+          P->begin(), std::find(P->begin(), P->end(), R),
+          [](FeatureTreeNode *C) { return llvm::isa<Relationship>(C); });
+      for (auto *C : TranslatedParent->children()) {
+        if (llvm::isa<Relationship>(C) && Index-- == 0) {
+          return C;
+        }
+      }
+    }
+    return static_cast<FeatureTreeNode *>(nullptr);
   }
 
   std::unique_ptr<FeatureModel> FM;
-- 
2.43.0


From c40a2e3d3bdf5508d52d08de93415ce04184d2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 17/64] fix: clone output strings, step functions, all
 locations and exact group members

---
 lib/Feature/FeatureModel.cpp | 50 ++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/lib/Feature/FeatureModel.cpp b/lib/Feature/FeatureModel.cpp
index b169091..d56cf94 100644
--- a/lib/Feature/FeatureModel.cpp
+++ b/lib/Feature/FeatureModel.cpp
@@ -93,14 +93,18 @@ std::unique_ptr<FeatureModel> FeatureModel::clone() const {
     case Feature::FeatureKind::FK_BINARY:
       if (auto *F = llvm::dyn_cast<BinaryFeature>(KV.getValue().get()); F) {
         FMB.makeFeature<BinaryFeature>(F->getName().str(), F->isOptional(),
-                                       std::move(SourceRanges));
+                                       std::move(SourceRanges),
+                                       F->getOutputString().str());
       }
       break;
     case Feature::FeatureKind::FK_NUMERIC:
       if (auto *F = llvm::dyn_cast<NumericFeature>(KV.getValue().get()); F) {
-        FMB.makeFeature<NumericFeature>(F->getName().str(), F->getValues(),
-                                        F->isOptional(),
-                                        std::move(SourceRanges));
+        FMB.makeFeature<NumericFeature>(
+            F->getName().str(), F->getValues(), F->isOptional(),
+            std::move(SourceRanges), F->getOutputString().str(),
+            F->getStepFunction()
+                ? std::make_unique<StepFunction>(*F->getStepFunction())
+                : nullptr);
       }
       break;
     }
@@ -111,16 +115,6 @@ std::unique_ptr<FeatureModel> FeatureModel::clone() const {
     }
   }
 
-  for (const auto &Rel : this->Relationships) {
-    if (auto *P = llvm::dyn_cast_or_null<Feature>(Rel->getParent())) {
-      FMB.emplaceRelationship(Rel->getKind(), P->getName().str());
-    }
-  }
-
-  // We can use recursive cloning on constraints, as we can rely on the
-  // builder to update pointers into the feature model correctly if invoked
-  // afterwards.
-  // TODO(s9latimm): Add unittests for cloned Constraints
   for (const auto &C : this->booleanConstraints()) {
     FMB.addConstraint(
         std::make_unique<FeatureModel::BooleanConstraint>((**C)->clone()));
@@ -140,6 +134,34 @@ std::unique_ptr<FeatureModel> FeatureModel::clone() const {
   //  valid.
   auto FM = FMB.buildFeatureModel();
   assert(FM);
+
+  for (const auto &KV : this->Features) {
+    auto *F = FM->getFeature(KV.getKey());
+    // these kinds of features cannot be constructed with locations
+    if (!F->hasLocations()) {
+      for (const auto &Location : KV.getValue()->getLocations()) {
+        F->addLocation(Location);
+      }
+    }
+  }
+
+  // relationships do not need to contain all children of their parent
+  for (const auto &Rel : this->Relationships) {
+    if (auto *P = llvm::dyn_cast_or_null<Feature>(Rel->getParent())) {
+      auto *NewParent = FM->getFeature(P->getName());
+      auto *NewRel =
+          FM->addRelationship(std::make_unique<Relationship>(Rel->getKind()));
+      NewRel->setParent(NewParent);
+      NewParent->addEdge(NewRel);
+      for (auto *C : Rel->getChildren<Feature>()) {
+        auto *NewChild = FM->getFeature(C->getName());
+        NewParent->removeEdge(NewChild);
+        NewRel->addEdge(NewChild);
+        NewChild->setParent(NewRel);
+      }
+    }
+  }
+
   return FM;
 }
 
-- 
2.43.0


From dca61097ed6447099fe3c0583485f71f7636ea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 18/64] fix: merge output strings and step functions and report
 a refused commit

---
 lib/Feature/FeatureModelTransaction.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index b694651..003c9f9 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -175,7 +175,11 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
     Trans.abort();
     return nullptr;
   }
-  return *Trans.commit();
+  auto Merged = Trans.commit();
+  if (!Merged) {
+    return nullptr;
+  }
+  return Merged.extractValue();
 }
 
 [[nodiscard]] bool mergeSubtree(FeatureModelCopyTransaction &Trans,
@@ -217,13 +221,18 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
     return std::make_unique<BinaryFeature>(
         F.getName().str(), F.isOptional(),
         std::vector<FeatureSourceRange>(F.getLocationsBegin(),
-                                        F.getLocationsEnd()));
+                                        F.getLocationsEnd()),
+        F.getOutputString().str());
   case Feature::FeatureKind::FK_NUMERIC:
     if (auto *NF = llvm::dyn_cast<NumericFeature>(&F)) {
       return std::make_unique<NumericFeature>(
           F.getName().str(), NF->getValues(), F.isOptional(),
           std::vector<FeatureSourceRange>(F.getLocationsBegin(),
-                                          F.getLocationsEnd()));
+                                          F.getLocationsEnd()),
+          F.getOutputString().str(),
+          NF->getStepFunction()
+              ? std::make_unique<StepFunction>(*NF->getStepFunction())
+              : nullptr);
     }
     break;
   case Feature::FeatureKind::FK_ROOT:
-- 
2.43.0


From 4094c3c9b22525bdad2038cbd74a9c9e6c26c091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 19/64] fix: ignore whitespace around the names of child
 options

---
 lib/Feature/FeatureModelParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 1ea029c..d7c0b7e 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -65,7 +65,7 @@ FeatureModelXmlParser::parseConfigurationOption(xmlNode *Node,
         for (xmlNode *Child = Head->children; Child; Child = Child->next) {
           if (Child->type == XML_ELEMENT_NODE) {
             if (!xmlStrcmp(Child->name, XmlConstants::OPTIONS)) {
-              auto FeatureName = std::string(reinterpret_cast<char *>(
+              auto FeatureName = trim(reinterpret_cast<char *>(
                   std::unique_ptr<xmlChar, void (*)(void *)>(
                       xmlNodeGetContent(Child), xmlFree)
                       .get()));
-- 
2.43.0


From 864f3c08322ea79c6d1ca597fe1760a3ee8f4d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 20/64] fix: load mixed constraints without optional attributes

---
 lib/Feature/FeatureModelParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index d7c0b7e..4c2feda 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -253,10 +253,10 @@ FeatureModelXmlParser::parseConstraints<FeatureModel::MixedConstraint>(
 
           FMB.addConstraint(std::make_unique<FeatureModel::MixedConstraint>(
               std::move(Constraint),
-              std::string(reinterpret_cast<char *>(R.get())) == "none"
+              R && std::string(reinterpret_cast<char *>(R.get())) == "none"
                   ? FeatureModel::MixedConstraint::Req::NONE
                   : FeatureModel::MixedConstraint::Req::ALL,
-              std::string(reinterpret_cast<char *>(E.get())) == "neg"
+              E && std::string(reinterpret_cast<char *>(E.get())) == "neg"
                   ? FeatureModel::MixedConstraint::ExprKind::NEG
                   : FeatureModel::MixedConstraint::ExprKind::POS));
         } else {
-- 
2.43.0


From 43a734047f79e35c17e8f596a9216397d19fd3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 21/64] fix: load SXFM documents without a name

---
 lib/Feature/FeatureModelParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 4c2feda..1f627a9 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -505,7 +505,7 @@ bool FeatureModelSxfmParser::parseVm(xmlNode *Node) {
   // Parse the name first.
   {
     UniqueXmlChar Cnt(xmlGetProp(Node, XmlConstants::NAME), xmlFree);
-    FMB.setVmName(std::string(reinterpret_cast<char *>(Cnt.get())));
+    FMB.setVmName(Cnt ? std::string(reinterpret_cast<char *>(Cnt.get())) : "");
   }
   // After the feature model tag, some metadata is provided.
   // Currently, we skip the metadata and continue with parsing the feature tree
-- 
2.43.0


From 1a60169dbd0013188813e7893c1dbc188d912759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 22/64] fix: refuse SXFM tree lines with broken indentation or
 no type

---
 lib/Feature/FeatureModelParser.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 1f627a9..22c6749 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -607,6 +607,15 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
           CurrentIndentationLevel * Indentation.length() + 2;
       std::optional<std::tuple<int, int>> Cardinalities;
 
+      // Only the indentation may precede the colon, and the type follows it
+      if (IndentationString.size() !=
+              CurrentIndentationLevel * Indentation.length() ||
+          Pos > To.length()) {
+        llvm::errs() << "Wrong indentation or missing type in line " << To
+                     << "\n";
+        return false;
+      }
+
       switch (To.at(Pos - 1)) {
       case 'r':
         IsRoot = true;
@@ -706,7 +715,10 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
       if (LastIndentationLevel != -1) {
         auto Parent =
             IndentationToParentMapping.find(CurrentIndentationLevel - 1);
-        assert(Parent != IndentationToParentMapping.end());
+        if (Parent == IndentationToParentMapping.end()) {
+          llvm::errs() << "Line is less indented than the root: " << To << "\n";
+          return false;
+        }
         FMB.addEdge(Parent->second, Name);
       }
 
-- 
2.43.0


From 34840d5c08af88889a7564815d1586f73404324b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 23/64] fix: refuse SXFM documents with a constraint that
 cannot be parsed

---
 lib/Feature/FeatureModelParser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 22c6749..3d05449 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -821,10 +821,12 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
       }
     }
 
-    if (auto Constraint = ConstraintParser(CnfFormula).buildConstraint()) {
-      FMB.addConstraint(std::make_unique<FeatureModel::BooleanConstraint>(
-          std::move(Constraint)));
+    auto Constraint = ConstraintParser(CnfFormula).buildConstraint();
+    if (!Constraint) {
+      return false;
     }
+    FMB.addConstraint(
+        std::make_unique<FeatureModel::BooleanConstraint>(std::move(Constraint)));
   }
 
   return true;
-- 
2.43.0


From 451206346957f46222991d2b48dfebbc86b2a3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 24/64] fix: replace only whole identifiers in SXFM constraints

---
 lib/Feature/FeatureModelParser.cpp | 31 ++++++++++--------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 3d05449..4b9f005 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -684,10 +684,6 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
         std::string Identifier = (*Match).str();
         Identifier = Identifier.substr(1, Identifier.size() - 2);
         IdentifierMap[Identifier] = Name;
-        if (Identifier != Name && Name.find(Identifier) != std::string::npos) {
-          llvm::errs() << "Name must not contain ID:'" << Name << "'\n";
-          return false;
-        }
       }
 
       // If there is no name, provide an artificial one
@@ -766,13 +762,6 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
       UniqueXmlChar(xmlNodeGetContent(Constraints), xmlFree).get()));
   std::string To;
 
-  // Prepare the identifiers for later replacement
-  std::vector<std::string> Keys;
-  Keys.reserve(IdentifierMap.size());
-  std::for_each(IdentifierMap.begin(), IdentifierMap.end(),
-                [&Keys](const auto &Entry) { Keys.push_back(Entry.first); });
-  std::sort(Keys.begin(), Keys.end(), std::greater<std::string>{});
-
   while (std::getline(Ss, To)) {
     // Ignore if a line is empty
     if (To.empty() || std::all_of(To.begin(), To.end(), isspace)) {
@@ -792,20 +781,20 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
 
     auto Pos = ToStringRef.find(':');
     ToStringRef = ToStringRef.substr(Pos + 1, ToStringRef.size() - Pos - 1);
-    std::string CnfFormula = trim(ToStringRef);
+    ToStringRef = ToStringRef.trim();
+    std::string CnfFormula;
 
     // In the following lines, we replace all identifiers by the real feature
     // name
-    for (auto &Key : Keys) {
-      std::string Value = IdentifierMap[Key];
-      if (Value == Key) {
-        continue;
-      }
-      auto FoundPos = CnfFormula.find(Key);
-      while (FoundPos != std::string::npos) {
-        CnfFormula = CnfFormula.replace(FoundPos, Key.length(), Value);
-        FoundPos = CnfFormula.find(Key);
+    while (!ToStringRef.empty()) {
+      auto Token = ToStringRef.take_while(
+          [](char C) { return llvm::isAlnum(C) || C == '_'; });
+      if (Token.empty()) {
+        Token = ToStringRef.take_front();
       }
+      auto Entry = IdentifierMap.find(Token.str());
+      CnfFormula += Entry != IdentifierMap.end() ? Entry->second : Token.str();
+      ToStringRef = ToStringRef.drop_front(Token.size());
     }
 
     // Replace 'or' by '|' and 'and' by '&'
-- 
2.43.0


From 728afaca4e62d9ed563e54b30cc09ba77f185b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 25/64] fix: read ~ in SXFM constraints as logical negation

---
 lib/Feature/FeatureModelParser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 4b9f005..191ac83 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -793,7 +793,12 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
         Token = ToStringRef.take_front();
       }
       auto Entry = IdentifierMap.find(Token.str());
-      CnfFormula += Entry != IdentifierMap.end() ? Entry->second : Token.str();
+      if (Entry != IdentifierMap.end()) {
+        CnfFormula += Entry->second;
+      } else {
+        // '~' negates a feature, not a number
+        CnfFormula += Token == "~" ? "!" : Token.str();
+      }
       ToStringRef = ToStringRef.drop_front(Token.size());
     }
 
-- 
2.43.0


From fc0e9d28dd22c5ff175e42749ff87de4b868aac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 26/64] fix: formatting of the previous fixes

---
 lib/Feature/FeatureModelParser.cpp      |  4 ++--
 lib/Feature/FeatureModelTransaction.cpp | 20 ++++++++++----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 191ac83..531fcda 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -819,8 +819,8 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
     if (!Constraint) {
       return false;
     }
-    FMB.addConstraint(
-        std::make_unique<FeatureModel::BooleanConstraint>(std::move(Constraint)));
+    FMB.addConstraint(std::make_unique<FeatureModel::BooleanConstraint>(
+        std::move(Constraint)));
   }
 
   return true;
diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index 003c9f9..de63cb2 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -82,16 +82,16 @@ canBeDeletedRecursively(FeatureModel &FM, detail::FeatureVariantTy &FV,
   }
 
   // if no other feature lies below this one we are good to go for deletion
-  return std::optional<bool>{std::none_of(
-      OtherFeatures.begin(), OtherFeatures.end(),
-      [ActualFeature](FeatureTreeNode *Other) {
-        for (auto *P = Other->getParent(); P; P = P->getParent()) {
-          if (P == ActualFeature) {
-            return true;
-          }
-        }
-        return false;
-      })};
+  return std::optional<bool>{
+      std::none_of(OtherFeatures.begin(), OtherFeatures.end(),
+                   [ActualFeature](FeatureTreeNode *Other) {
+                     for (auto *P = Other->getParent(); P; P = P->getParent()) {
+                       if (P == ActualFeature) {
+                         return true;
+                       }
+                     }
+                     return false;
+                   })};
 }
 
 std::vector<detail::FeatureVariantTy> removeFeatures(
-- 
2.43.0


From d7032a907b3cff8a3f972b798f4f842f59f0e7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 27/64] fix: print the numbers of step functions exactly

---
 include/vara/Feature/StepFunction.h | 31 +++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/vara/Feature/StepFunction.h b/include/vara/Feature/StepFunction.h
index 19464f4..57da893 100644
--- a/include/vara/Feature/StepFunction.h
+++ b/include/vara/Feature/StepFunction.h
@@ -1,11 +1,14 @@
 #ifndef VARA_FEATURE_STEPFUNCTION_H
 #define VARA_FEATURE_STEPFUNCTION_H
 
+#include "llvm/ADT/StringRef.h"
 #include "llvm/Support/ErrorHandling.h"
 #include "llvm/Support/FormatVariadic.h"
 
 #include <cmath>
+#include <cstdio>
 #include <memory>
+#include <string>
 #include <variant>
 
 namespace vara::feature {
@@ -62,30 +65,46 @@ public:
       switch (Op) {
       case StepOperation::ADDITION:
         return llvm::formatv("{0} + {1}", std::get<std::string>(LHS),
-                             std::get<double>(RHS));
+                             formatNumber(std::get<double>(RHS)));
       case StepOperation::MULTIPLICATION:
         return llvm::formatv("{0} * {1}", std::get<std::string>(LHS),
-                             std::get<double>(RHS));
+                             formatNumber(std::get<double>(RHS)));
       case StepOperation::EXPONENTIATION:
         return llvm::formatv("{0} ^ {1}", std::get<std::string>(LHS),
-                             std::get<double>(RHS));
+                             formatNumber(std::get<double>(RHS)));
       }
     }
     assert(std::holds_alternative<double>(LHS));
     switch (Op) {
     case StepOperation::ADDITION:
-      return llvm::formatv("{0} + {1}", std::get<double>(LHS),
+      return llvm::formatv("{0} + {1}", formatNumber(std::get<double>(LHS)),
                            std::get<std::string>(RHS));
     case StepOperation::MULTIPLICATION:
-      return llvm::formatv("{0} * {1}", std::get<double>(LHS),
+      return llvm::formatv("{0} * {1}", formatNumber(std::get<double>(LHS)),
                            std::get<std::string>(RHS));
     case StepOperation::EXPONENTIATION:
-      return llvm::formatv("{0} ^ {1}", std::get<double>(LHS),
+      return llvm::formatv("{0} ^ {1}", formatNumber(std::get<double>(LHS)),
                            std::get<std::string>(RHS));
     }
   }
 
 private:
+  /// Format a number such that parsing the text yields exactly that number.
+  static std::string formatNumber(double Number) {
+    std::string Text;
+    for (int Precision = 0; Precision <= 340; ++Precision) {
+      auto Length = std::snprintf(nullptr, 0, "%.*f", Precision, Number);
+      Text.resize(Length + 1);
+      std::snprintf(Text.data(), Text.size(), "%.*f", Precision, Number);
+      Text.resize(Length);
+      double Parsed = 0;
+      if (!llvm::StringRef(Text).getAsDouble(Parsed) && Parsed == Number) {
+        break;
+      }
+    }
+    return Text;
+  }
+
   StepOperation Op;
   OperandVariantType LHS;
   OperandVariantType RHS;
-- 
2.43.0


From 65c0d48e9baed72f125bb794e2de06b047e119ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 28/64] fix: report files that cannot be written

---
 lib/Feature/FeatureModelWriter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index e75d9d8..01f3bf3 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -27,7 +27,7 @@ int FeatureModelXmlWriter::writeFeatureModel(std::string Path) {
   std::unique_ptr<xmlTextWriter, void (*)(xmlTextWriterPtr)> Writer(
       xmlNewTextWriterFilename(Path.data(), 0), &xmlFreeTextWriter);
   if (!Writer) {
-    return false;
+    return -1;
   }
 
   RC = writeFeatureModel(Writer.get());
@@ -125,7 +125,10 @@ int FeatureModelXmlWriter::writeVm(xmlTextWriterPtr Writer) {
   }
 
   RC = xmlTextWriterEndDocument(Writer); // VM
-  return RC;
+  CHECK_RC
+
+  // write errors must not stay unnoticed in the output buffer
+  return xmlTextWriterFlush(Writer);
 }
 
 int FeatureModelXmlWriter::writeBinaryFeatures(xmlTextWriterPtr Writer) {
-- 
2.43.0


From ef4a100e2732474e871be17507fc3f8b803ccc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 29/64] fix: write 64-bit values without truncation

---
 lib/Feature/FeatureModelWriter.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 01f3bf3..3e1824f 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -434,10 +434,11 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
     } else {
       auto Values = std::get<NumericFeature::ValueListType>(ValueVariant);
       std::string Str;
-      std::for_each(std::begin(Values), std::end(Values) - 1, [&Str](int X) {
-        Str.append(std::to_string(X));
-        Str.push_back(';');
-      });
+      std::for_each(std::begin(Values), std::end(Values) - 1,
+                    [&Str](int64_t X) {
+                      Str.append(std::to_string(X));
+                      Str.push_back(';');
+                    });
       Str.append(std::to_string(Values.back()));
 
       RC = xmlTextWriterWriteElement(Writer, XmlConstants::VALUES,
-- 
2.43.0


From b998f4f2dbb3dcb818735b0b1073d2777b70ad48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 30/64] fix: write output strings

---
 lib/Feature/FeatureModelWriter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 3e1824f..4b18d29 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -314,6 +314,13 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
   CHECK_RC
 
   // parent
+  if (!Feature1.getOutputString().empty()) {
+    RC = xmlTextWriterWriteElement(
+        Writer, XmlConstants::OUTPUTSTRING,
+        charToUChar(Feature1.getOutputString().data()));
+    CHECK_RC
+  }
+
   if (Feature1.getParentFeature()) {
     RC = xmlTextWriterWriteElement(
         Writer, XmlConstants::PARENT,
-- 
2.43.0


From d4d39b76524cfb99475719b79a12680272af5a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 31/64] fix: write step functions

---
 lib/Feature/FeatureModelWriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 4b18d29..7c49d64 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -452,6 +452,11 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
                                      charToUChar(Str.data()));
       CHECK_RC
     }
+    if (auto *Step = NF->getStepFunction()) {
+      RC = xmlTextWriterWriteElement(Writer, XmlConstants::STEPFUNCTION,
+                                     charToUChar(Step->toString().data()));
+      CHECK_RC
+    }
   }
 
   // locations?
-- 
2.43.0


From a7c588c40a9d6c87ac137d88d0986968fda3f506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 32/64] fix: write revision ranges and member offsets of
 locations

---
 lib/Feature/FeatureModelWriter.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 7c49d64..6cf9449 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -494,6 +494,23 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
   }
   CHECK_RC
 
+  if (auto *Revisions = Location.revisionRange()) {
+    RC = xmlTextWriterStartElement(Writer, XmlConstants::REVISIONRANGE);
+    CHECK_RC
+    RC = xmlTextWriterWriteElement(
+        Writer, XmlConstants::INTRODUCED,
+        charToUChar(Revisions->introducingCommit().data()));
+    CHECK_RC
+    if (Revisions->hasRemovingCommit()) {
+      RC = xmlTextWriterWriteElement(
+          Writer, XmlConstants::REMOVED,
+          charToUChar(Revisions->removingCommit().data()));
+      CHECK_RC
+    }
+    RC = xmlTextWriterEndElement(Writer); // REVISIONRANGE
+    CHECK_RC
+  }
+
   RC = xmlTextWriterWriteElement(
       Writer, XmlConstants::PATH,
       charToUChar(Location.getPath().string().data()));
@@ -533,6 +550,12 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
   RC = xmlTextWriterEndElement(Writer); // END
   CHECK_RC
 
+  if (auto *Offset = Location.getMemberOffset()) {
+    RC = xmlTextWriterWriteElement(Writer, XmlConstants::MEMBEROFFSET,
+                                   charToUChar(Offset->toString().data()));
+    CHECK_RC
+  }
+
   RC = xmlTextWriterEndElement(Writer); // SOURCERANGE
   return RC;
 }
-- 
2.43.0


From 1a8d195afd720a675477130fae03637469fa8aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 33/64] fix: refuse to write locations without positions

---
 lib/Feature/FeatureModelWriter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 6cf9449..b684fdf 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -520,6 +520,9 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
   CHECK_RC
 
   auto *Start = Location.getStart();
+  if (!Start) {
+    return -1; // the format requires a position
+  }
   RC = xmlTextWriterWriteElement(
       Writer, XmlConstants::LINE,
       BAD_CAST std::to_string(Start->getLineNumber()).data());
@@ -537,6 +540,9 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
   CHECK_RC
 
   auto *End = Location.getEnd();
+  if (!End) {
+    return -1; // the format requires a position
+  }
   RC = xmlTextWriterWriteElement(
       Writer, XmlConstants::LINE,
       BAD_CAST std::to_string(End->getLineNumber()).data());
-- 
2.43.0


From cb4c59c4042ad265ec00eb35f6b84b7fadc5ccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 34/64] fix: list a constraint that mentions a feature twice
 only once

---
 include/vara/Feature/Feature.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/vara/Feature/Feature.h b/include/vara/Feature/Feature.h
index 2a25b8a..9185d5b 100644
--- a/include/vara/Feature/Feature.h
+++ b/include/vara/Feature/Feature.h
@@ -198,9 +198,13 @@ private:
   void addConstraint(Constraint *C) {
     Constraints.push_back(C);
     if (auto *I = llvm::dyn_cast<ImpliesConstraint>(C->getRoot()); I) {
-      Implications.push_back(I);
+      if (!llvm::is_contained(Implications, I)) {
+        Implications.push_back(I);
+      }
     } else if (auto *E = llvm::dyn_cast<ExcludesConstraint>(C->getRoot()); E) {
-      Excludes.push_back(E);
+      if (!llvm::is_contained(Excludes, E)) {
+        Excludes.push_back(E);
+      }
     }
   }
 
-- 
2.43.0


From bec1d7e750219e4cd4ff2a822a250ca1bc3365a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 35/64] fix: enumerate numeric ranges without or with a
 non-advancing step function

---
 lib/Solver/Z3Solver.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 1df128a..24ee3c5 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -4,6 +4,8 @@
 
 #include "z3++.h"
 
+#include <cmath>
+
 namespace vara::solver {
 
 Result<SolverErrorCode>
@@ -46,7 +48,16 @@ Z3Solver::addFeature(const feature::Feature &FeatureToAdd,
       std::vector<int64_t> Vals;
       while (Step <= Range.second) {
         Vals.insert(Vals.begin(), Step);
-        Step = StepFunction->next(Step);
+        // without step function, the range contains all of its values
+        const double Next = StepFunction ? StepFunction->next<double>(Step)
+                            : Step < Range.second ? Step + 1.0
+                                                  : HUGE_VAL;
+        // stop at the end of the range and if there are no further values
+        if (!(Next <= Range.second) || !(Next < 0x1p63) ||
+            static_cast<int64_t>(Next) <= Step) {
+          break;
+        }
+        Step = static_cast<int64_t>(Next);
       }
       if (auto R = addFeature(F->getName().str(), Vals); !R) {
         return R;
-- 
2.43.0


From 508ce53b8760f0c7ec672a2f710e6c551b2e8ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 36/64] fix: report negative numeric values as numbers

---
 lib/Solver/Z3Solver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 24ee3c5..a307e36 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -252,8 +252,11 @@ Z3Solver::getCurrentConfiguration() {
   for (const auto &Entry : OptionToVariableMapping) {
     const z3::expr OptionExpr = *Entry.getValue();
     const z3::expr Value = CurrentModel->eval(OptionExpr, true);
-    Config->setConfigurationOption(Entry.getKey(),
-                                   llvm::StringRef(Value.to_string()));
+    // negative numerals are only printed as plain numbers on request
+    std::string Numeral;
+    Config->setConfigurationOption(Entry.getKey(), Value.is_numeral(Numeral)
+                                                       ? Numeral
+                                                       : Value.to_string());
   }
   return Config;
 }
-- 
2.43.0


From fc2714d308e95324f58d36c9162d0536f793cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 37/64] fix: exclusive or is false if neither operand holds

---
 lib/Solver/Z3Solver.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index a307e36..6dda3bd 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -335,8 +335,7 @@ bool Z3SolverConstraintVisitor::visit(vara::feature::BinaryConstraint *C) {
     Z3ConstraintExpression = Left - Z3ConstraintExpression;
     break;
   case feature::Constraint::ConstraintKind::CK_XOR:
-    Z3ConstraintExpression = z3::implies(Left, !Z3ConstraintExpression) &&
-                             z3::implies(Z3ConstraintExpression, !Left);
+    Z3ConstraintExpression = Left != Z3ConstraintExpression;
     break;
   default:
     llvm_unreachable(
-- 
2.43.0


From 71f89e95caa43635d15b376c9fd53cdac2c10381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 38/64] fix: models without valid configurations are not valid

---
 include/vara/Solver/ConfigurationFactory.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vara/Solver/ConfigurationFactory.h b/include/vara/Solver/ConfigurationFactory.h
index a4b4d2f..1ad6ee8 100644
--- a/include/vara/Solver/ConfigurationFactory.h
+++ b/include/vara/Solver/ConfigurationFactory.h
@@ -160,7 +160,8 @@ public:
   static bool isValid(feature::FeatureModel &Model,
                       const vara::solver::SolverType Type = SolverType::Z3) {
     auto S = SolverFactory::initializeSolver(Model, Type);
-    return S->hasValidConfigurations();
+    auto R = S->hasValidConfigurations();
+    return R && *R;
   }
 };
 
-- 
2.43.0


From c642d512a6b0a9e8dcdae18b21d831ad5ecee568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 39/64] fix: iterate the options of constant configurations

---
 include/vara/Configuration/Configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vara/Configuration/Configuration.h b/include/vara/Configuration/Configuration.h
index f09d957..24ddcae 100644
--- a/include/vara/Configuration/Configuration.h
+++ b/include/vara/Configuration/Configuration.h
@@ -143,7 +143,7 @@ public:
   [[nodiscard]] llvm::StringMapConstIterator<
       std::unique_ptr<ConfigurationOption>>
   begin() const {
-    return OptionMappings.end();
+    return OptionMappings.begin();
   }
 
   [[nodiscard]] llvm::StringMapIterator<std::unique_ptr<ConfigurationOption>>
-- 
2.43.0


From 265607fa0e0e385e381c267369984236ec88b363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 40/64] fix: read true in any case

---
 include/vara/Configuration/Configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vara/Configuration/Configuration.h b/include/vara/Configuration/Configuration.h
index 24ddcae..0ec80ee 100644
--- a/include/vara/Configuration/Configuration.h
+++ b/include/vara/Configuration/Configuration.h
@@ -111,7 +111,7 @@ private:
   convert(llvm::StringRef ValueToConvert) {
     // Parse the value
     if (ValueToConvert.lower() == "true" || ValueToConvert.lower() == "false") {
-      return ValueToConvert == "true";
+      return ValueToConvert.lower() == "true";
     }
     int64_t IntegerValue;
     if (!ValueToConvert.getAsInteger(0, IntegerValue)) {
-- 
2.43.0


From 380407249bbccabaa77bea47419c14076f858a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 41/64] fix: read only decimal numbers as integers

---
 include/vara/Configuration/Configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vara/Configuration/Configuration.h b/include/vara/Configuration/Configuration.h
index 0ec80ee..2ea9ae9 100644
--- a/include/vara/Configuration/Configuration.h
+++ b/include/vara/Configuration/Configuration.h
@@ -114,7 +114,7 @@ private:
       return ValueToConvert.lower() == "true";
     }
     int64_t IntegerValue;
-    if (!ValueToConvert.getAsInteger(0, IntegerValue)) {
+    if (!ValueToConvert.getAsInteger(10, IntegerValue)) {
       return IntegerValue;
     }
     return ValueToConvert.str();
-- 
2.43.0


From 2c8015bb2e659f96de9b3b579a83565f8f04f714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 42/64] fix: escape nested constraints in HTML

---
 include/vara/Feature/Constraint.h | 49 +++++--------------------------
 1 file changed, 8 insertions(+), 41 deletions(-)

diff --git a/include/vara/Feature/Constraint.h b/include/vara/Feature/Constraint.h
index 45062aa..5dc6115 100644
--- a/include/vara/Feature/Constraint.h
+++ b/include/vara/Feature/Constraint.h
@@ -1,8 +1,10 @@
 #ifndef VARA_FEATURE_CONSTRAINT_H
 #define VARA_FEATURE_CONSTRAINT_H
 
+#include "llvm/ADT/StringExtras.h"
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Support/FormatVariadic.h"
+#include "llvm/Support/raw_ostream.h"
 
 #include <cassert>
 #include <memory>
@@ -78,7 +80,12 @@ public:
 
   [[nodiscard]] virtual std::string toString() const = 0;
 
-  [[nodiscard]] virtual std::string toHTML() const { return toString(); }
+  [[nodiscard]] virtual std::string toHTML() const {
+    std::string Str;
+    llvm::raw_string_ostream OS(Str);
+    llvm::printHTMLEscaped(toString(), OS);
+    return OS.str();
+  }
 
   virtual bool accept(ConstraintVisitor &V) = 0;
 
@@ -175,11 +182,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &amp; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_AND;
   }
@@ -246,11 +248,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} =&gt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_IMPLIES;
   }
@@ -273,11 +270,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} =&gt; !{1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_EXCLUDES;
   }
@@ -301,11 +293,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &lt;=&gt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_EQUIVALENCE;
   }
@@ -418,11 +405,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &lt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_LESS;
   }
@@ -445,11 +427,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &gt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_GREATER;
   }
@@ -472,11 +449,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &lt;= {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_LESS_EQUAL;
   }
@@ -500,11 +472,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &gt;= {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_GREATER_EQUAL;
   }
-- 
2.43.0


From fbc3974c5d10b828de59c0c6264baf5fce678c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 43/64] fix: escape all text in HTML labels of the graph

---
 include/vara/Feature/FeatureModel.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/vara/Feature/FeatureModel.h b/include/vara/Feature/FeatureModel.h
index 3928e59..0eec0a8 100644
--- a/include/vara/Feature/FeatureModel.h
+++ b/include/vara/Feature/FeatureModel.h
@@ -578,11 +578,18 @@ struct GraphWriter<vara::feature::FeatureModel *> {
     }
   }
 
+  /// Escape text for HTML-like labels.
+  static std::string escapeHTML(StringRef Text) {
+    std::string Str;
+    raw_string_ostream OS(Str);
+    printHTMLEscaped(Text, OS);
+    return OS.str();
+  }
+
   static std::string buildFeatureLabel(vara::feature::Feature *F) {
     std::stringstream CS;
     for (const auto &C : F->constraints()) {
-      CS << "<tr><td>" << DOT::EscapeString(C->getRoot()->toHTML())
-         << "</td></tr>";
+      CS << "<tr><td>" << C->getRoot()->toHTML() << "</td></tr>";
     }
 
     std::stringstream LS;
@@ -590,7 +597,7 @@ struct GraphWriter<vara::feature::FeatureModel *> {
       LS << "<hr/>";
       for (const auto &Location : F->getLocations()) {
         LS << llvm::formatv("<tr><td><b>{0}</b></td></tr>",
-                            DOT::EscapeString(Location.toString()))
+                            escapeHTML(Location.toString()))
                   .str();
       }
     }
@@ -600,8 +607,8 @@ struct GraphWriter<vara::feature::FeatureModel *> {
         "cellborder=\"0\" "
         "cellpadding=\"5\">{0}{1}{2}</table>>",
         llvm::formatv("<tr><td><b>{0} (Flag: {1})</b></td></tr>",
-                      DOT::EscapeString(F->getName().str()),
-                      F->getOutputString().trim().str()),
+                      escapeHTML(F->getName()),
+                      escapeHTML(F->getOutputString().trim())),
         CS.str(), LS.str());
   }
 
-- 
2.43.0


From 3227d72a31fb64c989143f8f1b9bdb6af4c156df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 44/64] fix: create optional features through the Python
 builder

---
 bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp b/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp
index 06b36fb..5f9382e 100644
--- a/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp
+++ b/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp
@@ -19,7 +19,7 @@ void init_feature_model_builder_module(py::module &M) {
       .def(
           "make_binary_feature",
           [](vf::FeatureModelBuilder &FMB, std::string feature_name, bool Opt) {
-            return FMB.makeFeature<vf::BinaryFeature>(feature_name);
+            return FMB.makeFeature<vf::BinaryFeature>(feature_name, Opt);
           },
           R"pbdoc(Create a new binary `Feature` with the given `feature_name`.)pbdoc")
       .def(
-- 
2.43.0


From 40a98bffc26d9f18072ae1b9564f4deae3c45287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:01 +0000
Subject: [PATCH 45/64] fix: build models with a renamed root and a feature
 called root in any order

---
 include/vara/Feature/FeatureModelBuilder.h | 6 +++++-
 lib/Feature/FeatureModelBuilder.cpp        | 8 ++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureModelBuilder.h b/include/vara/Feature/FeatureModelBuilder.h
index 63fe0e9..4d3f660 100644
--- a/include/vara/Feature/FeatureModelBuilder.h
+++ b/include/vara/Feature/FeatureModelBuilder.h
@@ -17,6 +17,7 @@ class FeatureModelBuilder {
 public:
   FeatureModelBuilder()
       : FM(std::make_unique<FeatureModel>()),
+        RootBuilder(FeatureModelModifyTransaction::openTransaction(*FM)),
         FeatureBuilder(FeatureModelModifyTransaction::openTransaction(*FM)),
         ModelBuilder(FeatureModelModifyTransaction::openTransaction(*FM)),
         RelationBuilder(FeatureModelModifyTransaction::openTransaction(*FM)) {}
@@ -27,6 +28,7 @@ public:
   FeatureModelBuilder &operator=(FeatureModelBuilder &&) = default;
 
   ~FeatureModelBuilder() {
+    RootBuilder.abort();
     FeatureBuilder.abort();
     ModelBuilder.abort();
     RelationBuilder.abort();
@@ -92,7 +94,7 @@ public:
   }
 
   FeatureModelBuilder *makeRoot(const std::string &Name) {
-    FeatureBuilder.setRoot(std::make_unique<RootFeature>(Name));
+    RootBuilder.setRoot(std::make_unique<RootFeature>(Name));
     return this;
   }
 
@@ -105,6 +107,8 @@ private:
   std::unique_ptr<FeatureModel> FM;
   llvm::StringMap<std::string> Parents;
   // Modifications to initialize features as children of root.
+  // the root is set before any feature is added, whatever the order of calls
+  FeatureModelTransaction<detail::ModifyTransactionMode> RootBuilder;
   FeatureModelTransaction<detail::ModifyTransactionMode> FeatureBuilder;
   // Modifications to build tree structure and set FM meta information.
   FeatureModelTransaction<detail::ModifyTransactionMode> ModelBuilder;
diff --git a/lib/Feature/FeatureModelBuilder.cpp b/lib/Feature/FeatureModelBuilder.cpp
index fd8a96a..32f7dec 100644
--- a/lib/Feature/FeatureModelBuilder.cpp
+++ b/lib/Feature/FeatureModelBuilder.cpp
@@ -9,6 +9,14 @@ namespace vara::feature {
 std::unique_ptr<FeatureModel> FeatureModelBuilder::buildFeatureModel() {
   assert(FM->getRoot() && "FeatureModel has no root.");
 
+  if (Result E = RootBuilder.commit(); !E) {
+    llvm::errs() << "Building root failed with error: " << E << '\n';
+    FeatureBuilder.abort();
+    ModelBuilder.abort();
+    RelationBuilder.abort();
+    return nullptr;
+  }
+
   if (Result E = FeatureBuilder.commit(); !E) {
     llvm::errs() << "Building features failed with error: " << E << '\n';
     ModelBuilder.abort();
-- 
2.43.0


From 6a84c18d9aaa8b4afddc7d78b77dfbea49c6c7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:18 +0000
Subject: [PATCH 46/64] fix: refuse to add a second root to a model

---
 include/vara/Feature/FeatureModelTransaction.h | 4 ++++
 lib/Feature/FeatureModelTransaction.cpp        | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 585c7af..52cf00c 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -305,6 +305,10 @@ public:
   }
 
   Result<FTErrorCode, Feature *> operator()(FeatureModel &FM) {
+    // a root can only be replaced, see SetRoot
+    if (FM.getRoot() && llvm::isa<RootFeature>(NewFeature.get())) {
+      return ERROR;
+    }
     auto *InsertedFeature = addFeature(FM, std::move(NewFeature));
     if (!InsertedFeature) {
       return ALREADY_PRESENT;
diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index de63cb2..3e7f00c 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -203,7 +203,9 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
     if (!Copy) {
       return false;
     }
-    Trans.addFeature(std::move(Copy), F.getParentFeature());
+    if (!Trans.addFeature(std::move(Copy), F.getParentFeature())) {
+      return false;
+    }
   }
 
   // copy children if missing
-- 
2.43.0


From 4f4790910ba889f5355ce170f8cac0ab05c0c7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:17 +0000
Subject: [PATCH 47/64] fix: translate relationships exactly in copy
 transactions

---
 .../vara/Feature/FeatureModelTransaction.h    | 37 +++++++++++++------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 52cf00c..8291955 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -6,6 +6,7 @@
 #include "vara/Utils/Result.h"
 #include "vara/Utils/VariantUtil.h"
 
+#include "llvm/ADT/DenseMap.h"
 #include "llvm/ADT/StringRef.h"
 
 #include <algorithm>
@@ -835,7 +836,15 @@ private:
 
 class FeatureModelCopyTransactionBase {
 protected:
-  FeatureModelCopyTransactionBase(FeatureModel &FM) : FM(FM.clone()) {}
+  FeatureModelCopyTransactionBase(FeatureModel &FM) : FM(FM.clone()) {
+    auto Copies = std::as_const(*this->FM).relationships();
+    auto Copied = Copies.begin();
+    for (const auto &R : std::as_const(FM).relationships()) {
+      if (llvm::isa_and_nonnull<Feature>(R->getParent())) {
+        CopiedRelationships[R.get()] = (Copied++)->get();
+      }
+    }
+  }
 
   [[nodiscard]] inline Result<FTErrorCode, std::unique_ptr<FeatureModel>>
   commitImpl() {
@@ -884,6 +893,7 @@ protected:
 
     FeatureModelModification::makeModification<RemoveFeatureFromModel>(
         translateFeature(F), Recursive)(*FM);
+    forgetRemovedRelationships();
   }
 
   Result<FTErrorCode, Relationship *>
@@ -902,6 +912,7 @@ protected:
 
     FeatureModelModification::makeModification<RemoveRelationshipFromModel>(
         translateFeature(F))(*FM);
+    forgetRemovedRelationships();
   }
 
   void addLocationImpl(const FeatureVariantTy &F, FeatureSourceRange FSR) {
@@ -998,22 +1009,24 @@ private:
         return N;
       }
     }
-    auto *P = R ? llvm::dyn_cast_or_null<Feature>(R->getParent()) : nullptr;
-    auto *TranslatedParent = P ? FM->getFeature(P->getName()) : nullptr;
-    if (TranslatedParent) {
-      auto Index = std::count_if(
-          P->begin(), std::find(P->begin(), P->end(), R),
-          [](FeatureTreeNode *C) { return llvm::isa<Relationship>(C); });
-      for (auto *C : TranslatedParent->children()) {
-        if (llvm::isa<Relationship>(C) && Index-- == 0) {
-          return C;
-        }
+    // relationships are copied in order, see FeatureModel::clone
+    return static_cast<FeatureTreeNode *>(CopiedRelationships.lookup(R));
+  }
+
+  void forgetRemovedRelationships() {
+    for (auto &Copied : CopiedRelationships) {
+      auto Relationships = std::as_const(*FM).relationships();
+      if (std::none_of(Relationships.begin(), Relationships.end(),
+                       [&Copied](const auto &R) {
+                         return R.get() == Copied.second;
+                       })) {
+        Copied.second = nullptr;
       }
     }
-    return static_cast<FeatureTreeNode *>(nullptr);
   }
 
   std::unique_ptr<FeatureModel> FM;
+  llvm::DenseMap<const Relationship *, Relationship *> CopiedRelationships;
 };
 
 class FeatureModelModifyTransactionBase {
-- 
2.43.0


From 1da48eb1605cd289de3be88d72287b3a0c13a31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:51 +0000
Subject: [PATCH 48/64] fix: state only boolean constraints as implied and
 excluded options

---
 include/vara/Feature/FeatureModelWriter.h |  2 +-
 lib/Feature/FeatureModelWriter.cpp        | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureModelWriter.h b/include/vara/Feature/FeatureModelWriter.h
index e24c56f..0068455 100644
--- a/include/vara/Feature/FeatureModelWriter.h
+++ b/include/vara/Feature/FeatureModelWriter.h
@@ -50,7 +50,7 @@ private:
   int writeBooleanConstraints(xmlTextWriterPtr Writer);
   int writeNonBooleanConstraints(xmlTextWriterPtr Writer);
   int writeMixedConstraints(xmlTextWriterPtr Writer);
-  static int writeFeature(xmlTextWriterPtr Writer, Feature &Feature1);
+  int writeFeature(xmlTextWriterPtr Writer, Feature &Feature1);
   static int writeSourceRange(xmlTextWriterPtr Writer,
                               FeatureSourceRange &Location);
 
diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index b684fdf..8f96289 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -346,10 +346,24 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
     CHECK_RC
   }
 
+  // only boolean constraints can be stated by the feature, all others are
+  // written as text
+  auto IsBoolean = [this](const Constraint *C) {
+    for (const auto &B : FM.booleanConstraints()) {
+      if (**B == C) {
+        return true;
+      }
+    }
+    return false;
+  };
+
   // implications
   deprecated::OrderedFeatureVector Implications;
 
   for (const auto *C : Feature1.implications()) {
+    if (!IsBoolean(C)) {
+      continue;
+    }
     if (const auto *LHS =
             llvm::dyn_cast<PrimaryFeatureConstraint>(C->getLeftOperand());
         LHS) {
@@ -388,6 +402,9 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
     Excludes.insert(ES.begin(), ES.end());
   }
   for (const auto *C : Feature1.excludes()) {
+    if (!IsBoolean(C)) {
+      continue;
+    }
     if (const auto *LHS =
             llvm::dyn_cast<PrimaryFeatureConstraint>(C->getLeftOperand());
         LHS) {
-- 
2.43.0


From 425ec2e94975ab2a2ccd2586cdef82a710a673cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:18 +0000
Subject: [PATCH 49/64] fix: report write errors and take file names literally
 when writing a model

---
 lib/Feature/FeatureModelWriter.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 8f96289..83a5af0 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -8,6 +8,8 @@
 
 #include "libxml/xmlwriter.h"
 
+#include <cstdio>
+
 #define CHECK_RC                                                               \
   if (RC < 0) {                                                                \
     return RC;                                                                 \
@@ -23,15 +25,26 @@ static constexpr xmlChar INDENTATIONSTRING[] = "  ";
 static constexpr char ENCODING[] = "UTF-8";
 
 int FeatureModelXmlWriter::writeFeatureModel(std::string Path) {
-  int RC;
-  std::unique_ptr<xmlTextWriter, void (*)(xmlTextWriterPtr)> Writer(
-      xmlNewTextWriterFilename(Path.data(), 0), &xmlFreeTextWriter);
-  if (!Writer) {
+  std::FILE *File = std::fopen(Path.c_str(), "wb");
+  if (!File) {
     return -1;
   }
 
-  RC = writeFeatureModel(Writer.get());
-  return RC;
+  int RC = -1;
+  if (xmlOutputBufferPtr Buffer = xmlOutputBufferCreateFile(File, nullptr);
+      Buffer) {
+    if (xmlTextWriterPtr Writer = xmlNewTextWriter(Buffer); Writer) {
+      RC = writeFeatureModel(Writer);
+      xmlFreeTextWriter(Writer);
+    } else {
+      xmlOutputBufferClose(Buffer);
+    }
+  }
+
+  // some write errors show up only when the last data is written
+  bool HasError = std::ferror(File) != 0;
+  HasError |= std::fclose(File) != 0;
+  return HasError ? -1 : RC;
 }
 
 std::optional<std::string> FeatureModelXmlWriter::writeFeatureModel() {
-- 
2.43.0


From 43601de20e20d108365c8c869e2c1a0596a4d526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 50/64] fix: enumerate ranges of numeric features beyond 2^53
 exactly

---
 lib/Solver/Z3Solver.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 6dda3bd..c7b9549 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -4,8 +4,6 @@
 
 #include "z3++.h"
 
-#include <cmath>
-
 namespace vara::solver {
 
 Result<SolverErrorCode>
@@ -49,9 +47,14 @@ Z3Solver::addFeature(const feature::Feature &FeatureToAdd,
       while (Step <= Range.second) {
         Vals.insert(Vals.begin(), Step);
         // without step function, the range contains all of its values
-        const double Next = StepFunction ? StepFunction->next<double>(Step)
-                            : Step < Range.second ? Step + 1.0
-                                                  : HUGE_VAL;
+        if (!StepFunction) {
+          if (Step == Range.second) {
+            break;
+          }
+          ++Step;
+          continue;
+        }
+        const double Next = StepFunction->next<double>(Step);
         // stop at the end of the range and if there are no further values
         if (!(Next <= Range.second) || !(Next < 0x1p63) ||
             static_cast<int64_t>(Next) <= Step) {
-- 
2.43.0


From 3378791bedf288d14bc2258571902ab19a361b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 51/64] fix: solve models with children of numeric features and
 features without parent

---
 lib/Solver/Z3Solver.cpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index c7b9549..954d989 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -6,6 +6,16 @@
 
 namespace vara::solver {
 
+// Numeric features always have a value, i.e., there is no variable that tells
+// whether they are selected. Their children depend on the next option above.
+static const feature::Feature *getParentOption(const feature::Feature *Parent) {
+  while (Parent &&
+         Parent->getKind() == feature::Feature::FeatureKind::FK_NUMERIC) {
+    Parent = Parent->getParentFeature();
+  }
+  return Parent;
+}
+
 Result<SolverErrorCode>
 Z3Solver::addFeature(const feature::Feature &FeatureToAdd,
                      bool IsInAlternativeGroup) {
@@ -137,8 +147,11 @@ Z3Solver::removeFeature(feature::Feature &FeatureToRemove) {
 
 Result<SolverErrorCode>
 Z3Solver::addRelationship(const feature::Relationship &R) {
-  const auto *Parent =
-      reinterpret_cast<const feature::Feature *>(R.getParent());
+  const auto *Parent = getParentOption(
+      reinterpret_cast<const feature::Feature *>(R.getParent()));
+  if (!Parent) {
+    return PARENT_NOT_PRESENT;
+  }
   auto ParentOption = Context.bool_const(Parent->getName().str().c_str());
   z3::expr_vector V(Context);
   for (const auto &Child : R.children()) {
@@ -208,15 +221,18 @@ Z3Solver::getNextConfiguration() {
 Result<SolverErrorCode>
 Z3Solver::setBinaryFeatureConstraints(const feature::BinaryFeature &Feature,
                                       bool IsInAlternativeGroup) {
+  const auto *Parent = getParentOption(Feature.getParentFeature());
+  if (!Parent) {
+    return Ok();
+  }
+
   // Add constraint to parent
-  Solver->add(z3::implies(
-      *OptionToVariableMapping[Feature.getName()],
-      *OptionToVariableMapping[Feature.getParentFeature()->getName()]));
+  Solver->add(z3::implies(*OptionToVariableMapping[Feature.getName()],
+                          *OptionToVariableMapping[Parent->getName()]));
 
   if (!IsInAlternativeGroup && !Feature.isOptional()) {
-    Solver->add(z3::implies(
-        *OptionToVariableMapping[Feature.getParentFeature()->getName()],
-        *OptionToVariableMapping[Feature.getName()]));
+    Solver->add(z3::implies(*OptionToVariableMapping[Parent->getName()],
+                            *OptionToVariableMapping[Feature.getName()]));
   }
 
   return Ok();
-- 
2.43.0


From aba3e590334b0f9d13346a0e69a4e78052829e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 52/64] fix: read names and identifiers of SXFM lines exactly

---
 lib/Feature/FeatureModelParser.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 531fcda..9a17ab4 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -645,6 +645,16 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
             << To << "'\n";
         return false;
       }
+
+      // The type is separated from the name
+      if (Pos < To.length() && To.at(Pos) != ' ') {
+        llvm::errs() << "Missing space after the type in line " << To << "\n";
+        return false;
+      }
+      while (Pos + 1 < To.length() && To.at(Pos + 1) == ' ') {
+        Pos++;
+      }
+
       // Extract the name
       Name =
           ToStringRef.substr(Pos + 1, ToStringRef.find(' ', Pos + 1) - Pos - 1)
@@ -674,6 +684,13 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
       if (Name.find_first_of('(') != std::string::npos) {
         Name = Name.substr(0, Name.find('(', 0));
       }
+      Name = trim(Name);
+
+      // If there is no name, provide an artificial one
+      if (Name.empty()) {
+        OrGroupCounter++;
+        Name = "group_" + std::to_string(OrGroupCounter);
+      }
 
       // Search for identifier
       std::regex Regex(R"(\([a-zA-Z\d_]*\))");
@@ -686,12 +703,6 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
         IdentifierMap[Identifier] = Name;
       }
 
-      // If there is no name, provide an artificial one
-      if (Name.empty()) {
-        OrGroupCounter++;
-        Name = "group_" + std::to_string(OrGroupCounter);
-      }
-
       // Create the feature
       if (IsRoot) {
         FMB.makeRoot(Name);
-- 
2.43.0


From f08e020b35d7127615f67d2f8559bdbe5084d9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 53/64] fix: resolve identifiers in SXFM constraints to
 features of any name

---
 include/vara/Feature/ConstraintParser.h | 16 +++++++++++++---
 lib/Feature/FeatureModelParser.cpp      | 17 ++++++++++++-----
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index d857a67..b2bd049 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -5,6 +5,7 @@
 #include "vara/Feature/Feature.h"
 
 #include "llvm/ADT/StringExtras.h"
+#include "llvm/ADT/StringMap.h"
 
 #include <iostream>
 #include <utility>
@@ -318,8 +319,10 @@ static int64_t parseInteger(llvm::StringRef Str,
 class ConstraintParser {
 public:
   explicit ConstraintParser(std::string Cnt,
-                            std::optional<unsigned int> Line = std::nullopt)
-      : TokenList(ConstraintLexer(std::move(Cnt)).tokenize()), Line(Line) {}
+                            std::optional<unsigned int> Line = std::nullopt,
+                            llvm::StringMap<std::string> Names = {})
+      : TokenList(ConstraintLexer(std::move(Cnt)).tokenize()), Line(Line),
+        Names(std::move(Names)) {}
 
   std::unique_ptr<Constraint> buildConstraint() { return parseConstraint(); }
 
@@ -531,7 +534,7 @@ private:
       case ConstraintToken::ConstraintTokenKind::IDENTIFIER:
         assert(peek().getValue().has_value());
         return std::make_unique<PrimaryFeatureConstraint>(
-            std::make_unique<Feature>(*next().getValue()));
+            std::make_unique<Feature>(resolve(*next().getValue())));
       case ConstraintToken::ConstraintTokenKind::NUMBER:
         assert(peek().getValue().has_value());
         return std::make_unique<PrimaryIntegerConstraint>(
@@ -556,8 +559,15 @@ private:
     }
   }
 
+  [[nodiscard]] std::string resolve(const std::string &Identifier) const {
+    auto Name = Names.find(Identifier);
+    return Name != Names.end() ? Name->second : Identifier;
+  }
+
   ConstraintLexer::TokenListTy TokenList;
   std::optional<unsigned int> Line;
+  // feature names for identifiers in the text that are not the names themselves
+  llvm::StringMap<std::string> Names;
 };
 
 } // namespace vara::feature
diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 9a17ab4..1f40dbf 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -795,8 +795,9 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
     ToStringRef = ToStringRef.trim();
     std::string CnfFormula;
 
-    // In the following lines, we replace all identifiers by the real feature
-    // name
+    // In the following lines, we replace all identifiers by placeholders for
+    // the real feature names, which may contain any characters
+    llvm::StringMap<std::string> Names;
     while (!ToStringRef.empty()) {
       auto Token = ToStringRef.take_while(
           [](char C) { return llvm::isAlnum(C) || C == '_'; });
@@ -804,8 +805,12 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
         Token = ToStringRef.take_front();
       }
       auto Entry = IdentifierMap.find(Token.str());
-      if (Entry != IdentifierMap.end()) {
-        CnfFormula += Entry->second;
+      if (Entry != IdentifierMap.end() ||
+          (llvm::isAlpha(Token.front()) && Token != "or" && Token != "and")) {
+        auto Placeholder = "id" + std::to_string(Names.size());
+        Names[Placeholder] =
+            Entry != IdentifierMap.end() ? Entry->second : Token.str();
+        CnfFormula += Placeholder;
       } else {
         // '~' negates a feature, not a number
         CnfFormula += Token == "~" ? "!" : Token.str();
@@ -826,7 +831,9 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
       }
     }
 
-    auto Constraint = ConstraintParser(CnfFormula).buildConstraint();
+    auto Constraint =
+        ConstraintParser(CnfFormula, std::nullopt, std::move(Names))
+            .buildConstraint();
     if (!Constraint) {
       return false;
     }
-- 
2.43.0


From 535f74e28e111fdf5bf670ee5c8ab3dc5f3d3c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 54/64] fix: refuse documents whose outermost element is not a
 model

---
 lib/Feature/FeatureModelParser.cpp | 7 +++++--
 lib/Feature/SxfmConstants.h        | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 1f40dbf..9ad1a8d 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -429,7 +429,8 @@ FeatureModelParser::UniqueXmlDoc FeatureModelXmlParser::parseDoc() {
   xmlCleanupParser();
   if (Doc && Ctxt->valid) {
     xmlValidateDtd(&Ctxt->vctxt, Doc.get(), createDtd().get());
-    if (Ctxt->vctxt.valid) {
+    if (Ctxt->vctxt.valid && !xmlStrcmp(xmlDocGetRootElement(Doc.get())->name,
+                                        XmlConstants::VM)) {
       return Doc;
     }
     llvm::errs() << "Failed to validate DTD.\n";
@@ -489,7 +490,9 @@ FeatureModelSxfmParser::UniqueXmlDoc FeatureModelSxfmParser::parseDoc() {
   if (Doc && Ctxt->valid) {
     // (2) validate the sxfm format by using the dtd (document type definition)
     // file
-    if (xmlValidateDtd(&Ctxt->vctxt, Doc.get(), createDtd().get())) {
+    if (xmlValidateDtd(&Ctxt->vctxt, Doc.get(), createDtd().get()) &&
+        !xmlStrcmp(xmlDocGetRootElement(Doc.get())->name,
+                   SxfmConstants::FEATURE_MODEL)) {
       // and (3) check the tree-like structure of the embedded feature model
       // as well as constraints
       return Doc;
diff --git a/lib/Feature/SxfmConstants.h b/lib/Feature/SxfmConstants.h
index 42664a5..ea26ee6 100644
--- a/lib/Feature/SxfmConstants.h
+++ b/lib/Feature/SxfmConstants.h
@@ -15,6 +15,7 @@ public:
   ~SxfmConstants() = delete;
   static inline const int WILDCARD = -1;
   static constexpr xmlChar NAME[] = "name";
+  static constexpr xmlChar FEATURE_MODEL[] = "feature_model";
   static constexpr xmlChar FEATURE_TREE[] = "feature_tree";
   static constexpr xmlChar CONSTRAINTS[] = "constraints";
   static constexpr xmlChar INDENTATION[] = "indentation_string";
-- 
2.43.0


From 30321de6a3c78af9b8d18c64442857f35acaff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 55/64] fix: read identifiers and values of any length without
 deep recursion

---
 lib/Feature/FeatureModelParser.cpp | 37 +++++++++++++++++-------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 9ad1a8d..bf9336c 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -15,7 +15,6 @@
 #include "XmlConstants.h"
 
 #include <iostream>
-#include <regex>
 
 namespace vara::feature {
 
@@ -121,11 +120,18 @@ FeatureModelXmlParser::parseConfigurationOption(xmlNode *Node,
         } else if (!xmlStrcmp(Head->name, XmlConstants::MAXVALUE)) {
           MaxValue = parseInteger(Cnt, Head->line);
         } else if (!xmlStrcmp(Head->name, XmlConstants::VALUES)) {
-          const std::regex Regex(R"(-?\d+)");
-          std::smatch Matches;
-          for (std::string Suffix = Cnt; regex_search(Suffix, Matches, Regex);
-               Suffix = Matches.suffix()) {
-            Values.emplace_back(parseInteger(Matches.str(), Head->line));
+          for (llvm::StringRef Rest(Cnt); !Rest.empty();) {
+            auto Digits =
+                Rest.drop_front(Rest.front() == '-').take_while([](char C) {
+                  return llvm::isDigit(C);
+                });
+            if (Digits.empty()) {
+              Rest = Rest.drop_front();
+              continue;
+            }
+            auto Value = Rest.take_front(Digits.end() - Rest.begin());
+            Values.emplace_back(parseInteger(Value, Head->line));
+            Rest = Rest.drop_front(Value.size());
           }
         } else if (!xmlStrcmp(Head->name, XmlConstants::STEPFUNCTION)) {
           Step = StepFunctionParser(Cnt, Head->line).buildStepFunction();
@@ -429,8 +435,8 @@ FeatureModelParser::UniqueXmlDoc FeatureModelXmlParser::parseDoc() {
   xmlCleanupParser();
   if (Doc && Ctxt->valid) {
     xmlValidateDtd(&Ctxt->vctxt, Doc.get(), createDtd().get());
-    if (Ctxt->vctxt.valid && !xmlStrcmp(xmlDocGetRootElement(Doc.get())->name,
-                                        XmlConstants::VM)) {
+    if (Ctxt->vctxt.valid &&
+        !xmlStrcmp(xmlDocGetRootElement(Doc.get())->name, XmlConstants::VM)) {
       return Doc;
     }
     llvm::errs() << "Failed to validate DTD.\n";
@@ -696,14 +702,13 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
       }
 
       // Search for identifier
-      std::regex Regex(R"(\([a-zA-Z\d_]*\))");
-      std::string CurrentLine = ToStringRef.str();
-      for (std::sregex_iterator Match = std::sregex_iterator(
-               CurrentLine.begin(), CurrentLine.end(), Regex);
-           Match != std::sregex_iterator(); Match++) {
-        std::string Identifier = (*Match).str();
-        Identifier = Identifier.substr(1, Identifier.size() - 2);
-        IdentifierMap[Identifier] = Name;
+      for (auto Rest = ToStringRef.split('(').second; !Rest.empty();
+           Rest = Rest.split('(').second) {
+        auto Identifier = Rest.take_while(
+            [](char C) { return llvm::isAlnum(C) || C == '_'; });
+        if (Rest.drop_front(Identifier.size()).startswith(")")) {
+          IdentifierMap[Identifier.str()] = Name;
+        }
       }
 
       // Create the feature
-- 
2.43.0


From 8a070687b6013c40fa6f283991af3835b7561180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 56/64] fix: refuse XML documents with undeclared or missing
 attributes and stray text

---
 lib/Feature/FeatureModelParser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index bf9336c..08e9a95 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -434,8 +434,7 @@ FeatureModelParser::UniqueXmlDoc FeatureModelXmlParser::parseDoc() {
       xmlFreeDoc);
   xmlCleanupParser();
   if (Doc && Ctxt->valid) {
-    xmlValidateDtd(&Ctxt->vctxt, Doc.get(), createDtd().get());
-    if (Ctxt->vctxt.valid &&
+    if (xmlValidateDtd(&Ctxt->vctxt, Doc.get(), createDtd().get()) &&
         !xmlStrcmp(xmlDocGetRootElement(Doc.get())->name, XmlConstants::VM)) {
       return Doc;
     }
-- 
2.43.0


From 4e611bf400c24df40e314a62cbd6c0696a535a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 57/64] fix: quote flags in sample sets so that any text reads
 back as one flag

---
 lib/Sampling/SampleSetWriter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/Sampling/SampleSetWriter.cpp b/lib/Sampling/SampleSetWriter.cpp
index eb63dcb..9031dad 100644
--- a/lib/Sampling/SampleSetWriter.cpp
+++ b/lib/Sampling/SampleSetWriter.cpp
@@ -1,6 +1,7 @@
 #include "vara/Sampling/SampleSetWriter.h"
 
 #include <llvm/ObjectYAML/YAML.h>
+#include <llvm/Support/JSON.h>
 #include <llvm/Support/YAMLTraits.h>
 
 LLVM_YAML_IS_STRING_MAP(std::string)
@@ -24,17 +25,18 @@ std::string vara::sampling::SampleSetWriter::writeConfigurations(
         if (ConfigurationStringFlags.size() != 1) {
           ConfigurationStringFlags.append(", ");
         }
-        ConfigurationStringFlags.append("\"");
-        ConfigurationStringFlags.append(F->getOutputString().str());
+        std::string Flag = F->getOutputString().str();
         if (F->getKind() == feature::Feature::FeatureKind::FK_NUMERIC) {
           auto OptionValue =
               Configuration->configurationOptionValue(F->getName());
           assert(
               OptionValue.has_value() &&
               "Could not retrieve option value, broken configuration option.");
-          ConfigurationStringFlags.append(OptionValue.value());
+          Flag.append(OptionValue.value());
         }
-        ConfigurationStringFlags.append("\"");
+        // Quote the flag such that it can be read back as a single string.
+        llvm::raw_string_ostream(ConfigurationStringFlags)
+            << llvm::json::Value(llvm::json::fixUTF8(Flag));
       }
     }
     ConfigurationStringFlags.append("]");
-- 
2.43.0


From 33f2ebed06e4defc789bbf0b44707c71d6be5f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 58/64] fix: fm-viewer reports that the graph could not be
 written

---
 tools/fm-viewer/FeatureModelViewer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/fm-viewer/FeatureModelViewer.cpp b/tools/fm-viewer/FeatureModelViewer.cpp
index 85e5914..3ac810a 100644
--- a/tools/fm-viewer/FeatureModelViewer.cpp
+++ b/tools/fm-viewer/FeatureModelViewer.cpp
@@ -69,8 +69,11 @@ int main(int Argc, char **Argv) {
     FM->dump();
   } else if (!Out.empty()) {
     llvm::errs() << "Writing '" << Out << "'...";
-    llvm::WriteGraph(FM.get(), llvm::Twine(FM->getName()), false, "",
-                     Out.getValue());
+    if (llvm::WriteGraph(FM.get(), llvm::Twine(FM->getName()), false, "",
+                         Out.getValue())
+            .empty()) {
+      return 1;
+    }
   } else {
     auto Filename = llvm::WriteGraph(FM.get(), llvm::Twine(FM->getName()));
 
-- 
2.43.0


From 55ae8a4d8ea2d1bf5cba7b8334b277209690a100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 59/64] fix: refuse to write numeric features without values

---
 lib/Feature/FeatureModelWriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 83a5af0..2dbf5ec 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -470,6 +470,9 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
       CHECK_RC
     } else {
       auto Values = std::get<NumericFeature::ValueListType>(ValueVariant);
+      if (Values.empty()) {
+        return -1; // the format requires a value
+      }
       std::string Str;
       std::for_each(std::begin(Values), std::end(Values) - 1,
                     [&Str](int64_t X) {
-- 
2.43.0


From 7e779de7f9a3b32ea0f356e48d8b7b665a7b7860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 60/64] fix: keep models alive while Python objects refer to
 them

---
 .../python/vara-feature/pybind_Feature.cpp    | 39 ++++++++++++----
 .../vara-feature/pybind_FeatureModel.cpp      | 45 +++++++++++--------
 .../pybind_FeatureModelXmlWriter.cpp          |  2 +-
 3 files changed, 58 insertions(+), 28 deletions(-)

diff --git a/bindings/python/vara-feature/pybind_Feature.cpp b/bindings/python/vara-feature/pybind_Feature.cpp
index a06be26..1efb161 100644
--- a/bindings/python/vara-feature/pybind_Feature.cpp
+++ b/bindings/python/vara-feature/pybind_Feature.cpp
@@ -10,6 +10,22 @@
 namespace vf = vara::feature;
 namespace py = pybind11;
 
+/// The parent belongs to the same model, so it has to keep alive what the node
+/// keeps alive, but not the node itself: parent and child would never be freed
+/// if they kept each other alive.
+static py::object getParent(const py::object &Self) {
+  auto Parent = py::cast(Self.cast<vf::FeatureTreeNode &>().getParent(),
+                         py::return_value_policy::reference);
+  const auto &Patients = py::detail::get_internals().patients;
+  if (auto Search = Patients.find(Self.ptr());
+      Parent.ref_count() == 1 && Search != Patients.end()) {
+    for (PyObject *Owner : std::vector<PyObject *>(Search->second)) {
+      py::detail::keep_alive_impl(Parent, Owner);
+    }
+  }
+  return Parent;
+}
+
 void init_feature_module_feature_tree_node(py::module &M) {
   py::class_<vf::FeatureTreeNode>(M, "FeatureTreeNode")
       //===----------------------------------------------------------------===//
@@ -31,8 +47,7 @@ void init_feature_module_feature_tree_node(py::module &M) {
 
       //===----------------------------------------------------------------===//
       // Parent
-      .def("parent", &vf::FeatureTreeNode::getParent,
-           py::return_value_policy::reference, R"pbdoc(Parent feature)pbdoc")
+      .def("parent", getParent, R"pbdoc(Parent feature)pbdoc")
       .def("is_parent", &vf::FeatureTreeNode::hasEdgeFrom,
            R"pbdoc(Checks if a node is a parent of this one.)pbdoc");
 }
@@ -40,10 +55,14 @@ void init_feature_module_feature_tree_node(py::module &M) {
 void init_feature_module_feature(py::module &M) {
   py::class_<vf::Feature, vf::FeatureTreeNode>(M, "Feature")
       .def("__hash__", &vf::Feature::hash)
-      .def_property_readonly("name", &vf::Feature::getName,
-                             R"pbdoc(The name of the feature.)pbdoc")
       .def_property_readonly(
-          "output_string", &vf::Feature::getOutputString,
+          "name",
+          py::cpp_function(&vf::Feature::getName, py::keep_alive<0, 1>()),
+          R"pbdoc(The name of the feature.)pbdoc")
+      .def_property_readonly(
+          "output_string",
+          py::cpp_function(&vf::Feature::getOutputString,
+                           py::keep_alive<0, 1>()),
           R"pbdoc(Returns the output string of a feature.)pbdoc")
       .def(
           "is_root",
@@ -53,10 +72,12 @@ void init_feature_module_feature(py::module &M) {
            R"pbdoc(`True` if the feature is optional.)pbdoc")
       .def_property_readonly(
           "locations",
-          [](vf::Feature &F) {
-            return py::make_iterator(F.getLocationsBegin(),
-                                     F.getLocationsEnd());
-          },
+          py::cpp_function(
+              [](vf::Feature &F) {
+                return py::make_iterator(F.getLocationsBegin(),
+                                         F.getLocationsEnd());
+              },
+              py::keep_alive<0, 1>()),
           R"pbdoc(The mapped code locations of the feature.)pbdoc")
       .def(
           "hasLocations", &vf::Feature::hasLocations,
diff --git a/bindings/python/vara-feature/pybind_FeatureModel.cpp b/bindings/python/vara-feature/pybind_FeatureModel.cpp
index c279a25..9ead155 100644
--- a/bindings/python/vara-feature/pybind_FeatureModel.cpp
+++ b/bindings/python/vara-feature/pybind_FeatureModel.cpp
@@ -55,7 +55,8 @@ void init_feature_model_module(py::module &M) {
 
   py::class_<vf::FeatureModel>(M, "FeatureModel")
       .def_property_readonly(
-          "name", &vf::FeatureModel::getName,
+          "name",
+          py::cpp_function(&vf::FeatureModel::getName, py::keep_alive<0, 1>()),
           R"pbdoc(Returns the name of the FeatureModel.)pbdoc")
       .def_property_readonly(
           "path",
@@ -68,14 +69,15 @@ void init_feature_model_module(py::module &M) {
           },
           R"pbdoc(Returns the commit associated to the FeatureModel.)pbdoc")
       .def("get_root", &vf::FeatureModel::getRoot,
-           py::return_value_policy::reference,
+           py::return_value_policy::reference_internal,
            R"pbdoc(Returns the root Feature.)pbdoc")
       .def(
           "get_feature",
           [](vf::FeatureModel &FM, const std::string &Name) {
             return FM.getFeature(Name);
           },
-          py::return_value_policy::reference, R"pbdoc(Returns Feature.)pbdoc")
+          py::return_value_policy::reference_internal,
+          R"pbdoc(Returns Feature.)pbdoc")
       .def(
           "add_binary_feature",
           [](vf::FeatureModel &FM, vf::Feature &Parent, std::string Name,
@@ -141,22 +143,29 @@ void init_feature_model_module(py::module &M) {
           },
           py::keep_alive<0, 1>())
       .def_property_readonly("booleanConstraints",
-                             [](const vf::FeatureModel &FM) {
-                               return py::make_iterator(
-                                   FM.booleanConstraints().begin(),
-                                   FM.booleanConstraints().end());
-                             })
+                             py::cpp_function(
+                                 [](const vf::FeatureModel &FM) {
+                                   return py::make_iterator(
+                                       FM.booleanConstraints().begin(),
+                                       FM.booleanConstraints().end());
+                                 },
+                                 py::keep_alive<0, 1>()))
       .def_property_readonly("nonBooleanConstraints",
-                             [](const vf::FeatureModel &FM) {
-                               return py::make_iterator(
-                                   FM.nonBooleanConstraints().begin(),
-                                   FM.nonBooleanConstraints().end());
-                             })
-      .def_property_readonly(
-          "mixedConstraints", [](const vf::FeatureModel &FM) {
-            return py::make_iterator(FM.mixedConstraints().begin(),
-                                     FM.mixedConstraints().end());
-          });
+                             py::cpp_function(
+                                 [](const vf::FeatureModel &FM) {
+                                   return py::make_iterator(
+                                       FM.nonBooleanConstraints().begin(),
+                                       FM.nonBooleanConstraints().end());
+                                 },
+                                 py::keep_alive<0, 1>()))
+      .def_property_readonly("mixedConstraints",
+                             py::cpp_function(
+                                 [](const vf::FeatureModel &FM) {
+                                   return py::make_iterator(
+                                       FM.mixedConstraints().begin(),
+                                       FM.mixedConstraints().end());
+                                 },
+                                 py::keep_alive<0, 1>()));
   M.def(
       "loadFeatureModel",
       [](const std::filesystem::path &Path) {
diff --git a/bindings/python/vara-feature/pybind_FeatureModelXmlWriter.cpp b/bindings/python/vara-feature/pybind_FeatureModelXmlWriter.cpp
index 195910e..ba6fce6 100644
--- a/bindings/python/vara-feature/pybind_FeatureModelXmlWriter.cpp
+++ b/bindings/python/vara-feature/pybind_FeatureModelXmlWriter.cpp
@@ -11,7 +11,7 @@ namespace py = pybind11;
 
 void init_xml_writer(py::module &M) {
   py::class_<vf::FeatureModelXmlWriter>(M, "FeatureModelXmlWriter")
-      .def(py::init<const vf::FeatureModel &>())
+      .def(py::init<const vf::FeatureModel &>(), py::keep_alive<1, 2>())
       .def(
           "get_feature_model_as_string",
           [](vf::FeatureModelXmlWriter &Fmxw) {
-- 
2.43.0


From 7a6778784b586f0e4577f5e425c6f62c484d66b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 61/64] fix: take Python lists of two values as lists instead
 of ranges

---
 bindings/python/vara-feature/pybind_common.h | 26 ++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/bindings/python/vara-feature/pybind_common.h b/bindings/python/vara-feature/pybind_common.h
index f9aa645..4d6418c 100644
--- a/bindings/python/vara-feature/pybind_common.h
+++ b/bindings/python/vara-feature/pybind_common.h
@@ -1,2 +1,28 @@
+#ifndef VARA_FEATURE_PYBIND_COMMON_H
+#define VARA_FEATURE_PYBIND_COMMON_H
+
+#include "vara/Feature/Feature.h"
+
 #include "pybind11/stl.h"
 #include "pybind11/stl/filesystem.h"
+
+namespace pybind11::detail {
+
+/// Tuples of two are ranges, whereas lists always enumerate the values, also
+/// if there are only two.
+template <>
+struct type_caster<vara::feature::NumericFeature::ValuesVariantType>
+    : variant_caster<vara::feature::NumericFeature::ValuesVariantType> {
+  bool load(handle Src, bool Convert) {
+    if (isinstance<list>(Src)) {
+      return load_alternative(
+          Src, Convert,
+          type_list<vara::feature::NumericFeature::ValueListType>{});
+    }
+    return variant_caster::load(Src, Convert);
+  }
+};
+
+} // namespace pybind11::detail
+
+#endif // VARA_FEATURE_PYBIND_COMMON_H
-- 
2.43.0


From 81669c1afb63e041637fddcfe25d6c539718404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 62/64] fix: report unknown kinds of relationships to Python

---
 bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp b/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp
index 5f9382e..1491612 100644
--- a/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp
+++ b/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp
@@ -6,7 +6,6 @@
 #include "pybind11/stl.h"
 #include "pybind_common.h"
 
-#include <cassert>
 #include <filesystem>
 #include <memory>
 
@@ -36,8 +35,9 @@ void init_feature_model_builder_module(py::module &M) {
             vf::Relationship::RelationshipKind RK;
             if (relation == "OR") {
               RK = vf::Relationship::RelationshipKind::RK_OR;
+            } else if (relation != "XOR") {
+              throw py::value_error("relation must be OR or XOR");
             } else {
-              assert(relation == "XOR" && "relation had unhandled kind");
               RK = vf::Relationship::RelationshipKind::RK_ALTERNATIVE;
             }
             return FMB.emplaceRelationship(RK, parent_name);
-- 
2.43.0


From a87730e17df97eb11b942687479086632892b90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:39 +0000
Subject: [PATCH 63/64] fix: do not tear down libxml2 while other threads use
 it

---
 lib/Feature/FeatureModelParser.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 08e9a95..3893779 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -419,7 +419,6 @@ FeatureModelParser::UniqueXmlDtd FeatureModelXmlParser::createDtd() {
                                      XML_CHAR_ENCODING_UTF8),
                                  XML_CHAR_ENCODING_UTF8),
                    xmlFreeDtd);
-  xmlCleanupParser();
   assert(Dtd && "Failed to parse DTD.");
   return Dtd;
 }
@@ -432,7 +431,6 @@ FeatureModelParser::UniqueXmlDoc FeatureModelXmlParser::parseDoc() {
                         checkedNarrowingSignConversion(Xml.length()), nullptr,
                         nullptr, XML_PARSE_NOBLANKS),
       xmlFreeDoc);
-  xmlCleanupParser();
   if (Doc && Ctxt->valid) {
     if (xmlValidateDtd(&Ctxt->vctxt, Doc.get(), createDtd().get()) &&
         !xmlStrcmp(xmlDocGetRootElement(Doc.get())->name, XmlConstants::VM)) {
@@ -473,7 +471,6 @@ FeatureModelSxfmParser::UniqueXmlDtd FeatureModelSxfmParser::createDtd() {
                                      XML_CHAR_ENCODING_UTF8),
                                  XML_CHAR_ENCODING_UTF8),
                    xmlFreeDtd);
-  xmlCleanupParser();
   assert(Dtd && "Failed to parse DTD.");
   return Dtd;
 }
@@ -488,7 +485,6 @@ FeatureModelSxfmParser::UniqueXmlDoc FeatureModelSxfmParser::parseDoc() {
                         checkedNarrowingSignConversion(Sxfm.length()), nullptr,
                         nullptr, XML_PARSE_NOBLANKS),
       xmlFreeDoc);
-  xmlCleanupParser();
 
   // In the following, the document is validated.
   // Therefore, (1) check whether it could be parsed
-- 
2.43.0


From a6c1cfb9d6ec2a13b70609aec84f0b6dcdebad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:39 +0000
Subject: [PATCH 64/64] fix: report broken configurations on the error stream

---
 lib/Configuration/Configuration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Configuration/Configuration.cpp b/lib/Configuration/Configuration.cpp
index a2ca281..e146bd3 100644
--- a/lib/Configuration/Configuration.cpp
+++ b/lib/Configuration/Configuration.cpp
@@ -16,7 +16,7 @@ std::unique_ptr<Configuration> Configuration::createConfigurationFromString(
   // If there was an error while parsing...
   if (auto Err = ParsedConfiguration.takeError()) {
     llvm::errs() << "The given configuration is not in json format.\n";
-    llvm::outs() << "Error: " << toString(std::move(Err)) << "\n";
+    llvm::errs() << "Error: " << toString(std::move(Err)) << "\n";
     return nullptr;
   }
   llvm::json::Value Value = ParsedConfiguration.get();
-- 
2.43.0

