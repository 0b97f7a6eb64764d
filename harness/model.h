// Reference model of feature models: own data structure, generator, canonical
// text, builders through the public API, XML text writer and brute-force
// enumeration; plus snap(), which reads a library model through its public
// accessors and reports every structural inconsistency it finds.
#ifndef VERIF_MODEL_H
#define VERIF_MODEL_H

#include "expr.h"
#include "vara/Feature/FeatureModel.h"
#include "vara/Feature/FeatureModelBuilder.h"
#include "vara/Feature/FeatureModelTransaction.h"
#include "vara/Feature/StepFunctionParser.h"
#include <cmath>

namespace vf {

using FM = vfe::FeatureModel;
using FSR = vfe::FeatureSourceRange;
using RKind = vfe::Relationship::RelationshipKind;

struct MRev {
  std::string Intro;
  std::optional<std::string> Removed;
};
struct MLoc {
  std::string Path;
  std::optional<std::pair<unsigned, unsigned>> S, E;
  bool Iness = false;
  std::optional<std::string> Member;
  std::optional<MRev> Rev;
};
struct MStep {
  bool VarLeft = true;
  char Op = '+';
  std::string Num = "1"; // shortest decimal text
  std::string Var = "x";
  double val(double X) const {
    double N = std::strtod(Num.c_str(), nullptr);
    double A = VarLeft ? X : N, B = VarLeft ? N : X;
    return Op == '+' ? A + B : Op == '*' ? A * B : std::pow(A, B);
  }
  std::string text() const {
    return VarLeft ? Var + " " + Op + " " + Num : Num + " " + Op + " " + Var;
  }
};
struct MFeat {
  std::string Name;
  char Kind = 'b'; // b binary, n numeric, r root, u unknown
  bool Opt = false;
  std::string Out;
  bool IsRange = true;
  int64_t Lo = 0, Hi = 0;
  std::vector<int64_t> Vals;
  std::optional<MStep> Step; // generator side only
  std::string StepSig, StepText;
  std::vector<MLoc> Locs;
  std::string Parent; // "" for the root
  int Group = -1;     // index into Model::G
};
struct MGroup {
  bool Alt = true;
  std::string Parent;
};
struct MCons {
  E X;
  int Kind = 0; // 0 boolean, 1 non-boolean, 2 mixed
  bool All = true, Neg = false;
};
struct Model {
  std::string Name = "FeatureModel", Path, Commit, Root = "root";
  std::map<std::string, MFeat> F;
  std::vector<MGroup> G;
  std::vector<MCons> B, N, M;

  std::vector<std::string> childrenOf(const std::string &P) const {
    std::vector<std::string> Out;
    for (auto &[K, X] : F) {
      if (X.Parent == P && K != Root) {
        Out.push_back(K);
      }
    }
    return Out;
  }
  std::vector<std::string> members(int Group) const {
    std::vector<std::string> Out;
    for (auto &[K, X] : F) {
      if (X.Group == Group) {
        Out.push_back(K);
      }
    }
    return Out;
  }
  std::vector<std::string> names() const {
    std::vector<std::string> Out;
    for (auto &[K, X] : F) {
      Out.push_back(K);
    }
    return Out;
  }
  bool isBelow(std::string A, const std::string &Anc) const {
    while (!A.empty()) {
      if (A == Anc) {
        return true;
      }
      A = F.at(A).Parent;
    }
    return false;
  }
  // parents before children
  std::vector<std::string> topDown() const {
    std::vector<std::string> Out{Root};
    for (size_t I = 0; I < Out.size(); ++I) {
      for (auto &C : childrenOf(Out[I])) {
        Out.push_back(C);
      }
    }
    return Out;
  }
  // preorder, siblings by lower-cased name
  std::vector<std::string> dfs() const {
    std::vector<std::string> Out;
    std::function<void(const std::string &)> Go = [&](const std::string &X) {
      Out.push_back(X);
      auto Cs = childrenOf(X);
      std::sort(Cs.begin(), Cs.end(), [](auto &A, auto &B) {
        return llvm::StringRef(A).lower() < llvm::StringRef(B).lower();
      });
      for (auto &C : Cs) {
        Go(C);
      }
    };
    Go(Root);
    return Out;
  }
  std::vector<MCons> allCons() const {
    auto Out = B;
    Out.insert(Out.end(), N.begin(), N.end());
    Out.insert(Out.end(), M.begin(), M.end());
    return Out;
  }
  // remove one feature (leaf) and what refers to it
  void erase(std::string Name) {
    F.erase(Name);
    auto Drop = [&](std::vector<MCons> &V) {
      V.erase(std::remove_if(V.begin(), V.end(),
                             [&](const MCons &C) {
                               std::set<std::string> S;
                               feats(C.X, S);
                               return S.count(Name) > 0;
                             }),
              V.end());
    };
    Drop(B);
    Drop(N);
    Drop(M);
    // groups below the removed feature disappear with it
    for (int I = static_cast<int>(G.size()) - 1; I >= 0; --I) {
      if (G[I].Parent == Name) {
        eraseGroup(I);
      }
    }
  }
  void eraseGroup(int I) {
    G.erase(G.begin() + I);
    for (auto &[K, X] : F) {
      if (X.Group == I) {
        X.Group = -1;
      } else if (X.Group > I) {
        --X.Group;
      }
    }
  }
};

//===-------------------------------------------------------------------===//
// canonical text

struct Canon {
  bool Sorted = true;    // constraints as multiset (else in order)
  bool NormExcl = false; // A excludes B == A => !B
  bool Locs = true;
  bool StepText = false;
  bool Cons = true;
  bool Meta = true;
};

inline std::string locText(const MLoc &L) {
  std::ostringstream O;
  O << show(L.Path);
  if (L.S) {
    O << " S" << L.S->first << ":" << L.S->second;
  }
  if (L.E) {
    O << " E" << L.E->first << ":" << L.E->second;
  }
  O << (L.Iness ? " inessential" : " necessary");
  if (L.Member) {
    O << " M<" << *L.Member << ">";
  }
  if (L.Rev) {
    O << " R<" << L.Rev->Intro << ">";
    if (L.Rev->Removed) {
      O << "<" << *L.Rev->Removed << ">";
    }
  }
  return O.str();
}

inline std::string consText(const MCons &C, const Canon &K) {
  std::string S = C.Kind == 0 ? "bool " : C.Kind == 1 ? "nonbool " : "mixed ";
  if (C.Kind == 2) {
    S += C.All ? "all " : "none ";
    S += C.Neg ? "neg " : "pos ";
  }
  return S + sexp(K.NormExcl ? normExcl(C.X) : C.X);
}

inline std::string featText(const MFeat &X, const Canon &K) {
  std::ostringstream O;
  O << X.Kind << " " << X.Name << " parent=" << X.Parent
    << " opt=" << X.Opt << " out=<" << X.Out << ">";
  if (X.Kind == 'n') {
    if (X.IsRange) {
      O << " range=" << X.Lo << ".." << X.Hi;
    } else {
      O << " values=";
      for (auto V : X.Vals) {
        O << V << ";";
      }
    }
    O << " step=" << X.StepSig;
    if (K.StepText) {
      O << " (" << X.StepText << ")";
    }
  }
  if (K.Locs) {
    for (auto &L : X.Locs) {
      O << "\n    at " << locText(L);
    }
  }
  return O.str();
}

inline std::string canon(const Model &M, const Canon &K = {}) {
  std::ostringstream O;
  if (K.Meta) {
    O << "model <" << M.Name << "> path <" << M.Path << "> commit <" << M.Commit << ">\n";
  }
  O << "root " << M.Root << "\n";
  for (auto &[N, X] : M.F) {
    O << featText(X, K) << "\n";
  }
  std::multiset<std::string> Gs;
  for (size_t I = 0; I < M.G.size(); ++I) {
    std::string S = "group " + std::string(M.G[I].Alt ? "alternative" : "or") +
                    " below " + M.G[I].Parent + ":";
    for (auto &X : M.members(static_cast<int>(I))) {
      S += " " + X;
    }
    Gs.insert(S);
  }
  for (auto &S : Gs) {
    O << S << "\n";
  }
  if (K.Cons) {
    for (auto *V : {&M.B, &M.N, &M.M}) {
      std::vector<std::string> Cs;
      for (auto &C : *V) {
        Cs.push_back(consText(C, K));
      }
      if (K.Sorted) {
        std::sort(Cs.begin(), Cs.end());
      }
      for (auto &S : Cs) {
        O << S << "\n";
      }
    }
  }
  return O.str();
}

// first differing lines, for messages
inline std::string diff(const std::string &Got, const std::string &Want) {
  auto Split = [](const std::string &S) {
    std::vector<std::string> V;
    std::stringstream I(S);
    std::string L;
    while (std::getline(I, L)) {
      V.push_back(L);
    }
    return V;
  };
  auto A = Split(Got), B = Split(Want);
  std::multiset<std::string> SA(A.begin(), A.end()), SB(B.begin(), B.end());
  std::string Out;
  int N = 0;
  for (auto &L : A) {
    auto It = SB.find(L);
    if (It != SB.end()) {
      SB.erase(It);
    } else if (N++ < 8) {
      Out += "  got:  " + L + "\n";
    }
  }
  N = 0;
  for (auto &L : B) {
    auto It = SA.find(L);
    if (It != SA.end()) {
      SA.erase(It);
    } else if (N++ < 8) {
      Out += "  want: " + L + "\n";
    }
  }
  return Out.empty() ? "  (same lines in another order)\n" + Got : Out;
}

inline bool sameModel(Ctx &C, const Model &Got, const Model &Want,
                      const std::string &Key, const std::string &What,
                      const Canon &K = {}) {
  auto A = canon(Got, K), B = canon(Want, K);
  if (A == B) {
    return true;
  }
  C.fail(Key, What + ":\n" + diff(A, B));
  return false;
}

inline std::string num12(double D) {
  char B[64];
  std::snprintf(B, sizeof B, "%.12g", D);
  return B;
}
template <class Fn> std::string stepSig(Fn F) {
  return num12(F(0)) + "," + num12(F(1)) + "," + num12(F(3)) + "," + num12(F(10));
}

//===-------------------------------------------------------------------===//
// reading a library model

struct Problems {
  std::vector<std::string> Tree, Link, List;
  std::string all() const {
    std::string S;
    for (auto *V : {&Tree, &Link, &List}) {
      for (auto &X : *V) {
        S += "  " + X + "\n";
      }
    }
    return S;
  }
  bool none() const { return Tree.empty() && Link.empty() && List.empty(); }
};

inline MLoc locOf(FSR &L) {
  MLoc O;
  O.Path = L.getPath().string();
  if (auto *S = L.getStart()) {
    O.S = {S->getLineNumber(), S->getColumnOffset()};
  }
  if (auto *S = L.getEnd()) {
    O.E = {S->getLineNumber(), S->getColumnOffset()};
  }
  O.Iness = L.getCategory() == FSR::Category::inessential;
  if (auto *M = L.getMemberOffset()) {
    O.Member = M->toString();
  }
  if (auto *R = L.revisionRange()) {
    O.Rev = MRev{R->introducingCommit().str(), std::nullopt};
    if (R->hasRemovingCommit()) {
      O.Rev->Removed = R->removingCommit().str();
    }
  }
  return O;
}

inline MFeat featOf(vfe::Feature *F) {
  MFeat X;
  X.Name = F->getName().str();
  X.Opt = F->isOptional();
  X.Out = F->getOutputString().str();
  switch (F->getKind()) {
  case vfe::Feature::FeatureKind::FK_BINARY: X.Kind = 'b'; break;
  case vfe::Feature::FeatureKind::FK_NUMERIC: X.Kind = 'n'; break;
  case vfe::Feature::FeatureKind::FK_ROOT: X.Kind = 'r'; break;
  case vfe::Feature::FeatureKind::FK_UNKNOWN: X.Kind = 'u'; break;
  }
  if (auto *N = llvm::dyn_cast<vfe::NumericFeature>(F)) {
    auto V = N->getValues();
    if (auto *P = std::get_if<vfe::NumericFeature::ValueRangeType>(&V)) {
      X.Lo = P->first;
      X.Hi = P->second;
    } else {
      X.IsRange = false;
      X.Vals = std::get<vfe::NumericFeature::ValueListType>(V);
    }
    if (auto *S = N->getStepFunction()) {
      X.StepSig = stepSig([&](double D) { return (*S)(D); });
      X.StepText = S->toString();
    }
  }
  for (auto &L : F->getLocations()) {
    X.Locs.push_back(locOf(L));
  }
  if (F->hasLocations() != !X.Locs.empty()) {
    X.Out += " <hasLocations disagrees>";
  }
  return X;
}

inline Model snap(const FM &M, Problems *P = nullptr) {
  Problems Dummy;
  if (!P) {
    P = &Dummy;
  }
  Model O;
  O.Name = M.getName().str();
  O.Path = M.getPath().string();
  O.Commit = M.getCommit().str();
  auto *Root = M.getRoot();
  if (!Root) {
    P->Tree.push_back("no root");
    return O;
  }
  O.Root = Root->getName().str();
  if (Root->getParent() || Root->getParentFeature()) {
    P->Tree.push_back("root has a parent");
  }
  std::set<vfe::FeatureTreeNode *> Seen;
  std::set<vfe::Relationship *> SeenR, OwnR;
  for (auto &R : M.relationships()) {
    OwnR.insert(R.get());
  }
  std::function<void(vfe::FeatureTreeNode *, vfe::FeatureTreeNode *, vfe::Feature *, int)> Walk =
      [&](vfe::FeatureTreeNode *N, vfe::FeatureTreeNode *Parent, vfe::Feature *PF, int Grp) {
        bool IsF = llvm::isa<vfe::Feature>(N);
        std::string Nm = IsF ? llvm::cast<vfe::Feature>(N)->getName().str() : "<group>";
        if (!Seen.insert(N).second) {
          P->Tree.push_back("reached twice: " + Nm);
          return;
        }
        if (N->getParent() != Parent) {
          P->Tree.push_back("parent link wrong: " + Nm);
        }
        if (Parent && (!N->hasEdgeFrom(*Parent) || !Parent->hasEdgeTo(*N))) {
          P->Tree.push_back("edge queries wrong: " + Nm);
        }
        int G = -1;
        if (IsF) {
          auto *F = llvm::cast<vfe::Feature>(N);
          auto X = featOf(F);
          X.Parent = PF ? PF->getName().str() : "";
          X.Group = Grp;
          if (F->getParentFeature() != PF) {
            P->Tree.push_back("parent feature wrong: " + Nm);
          }
          if (M.getFeature(Nm) != F) {
            P->Tree.push_back("lookup by name does not find " + Nm);
          }
          if (X.Kind == 'r' && F != Root) {
            P->Tree.push_back("second root: " + Nm);
          }
          if (!O.F.emplace(Nm, X).second) {
            P->Tree.push_back("name twice: " + Nm);
          }
          PF = F;
        } else {
          auto *R = llvm::cast<vfe::Relationship>(N);
          if (!OwnR.count(R)) {
            P->Tree.push_back("group not owned by the model below " + (PF ? PF->getName().str() : ""));
          }
          SeenR.insert(R);
          if (!Parent || !llvm::isa<vfe::Feature>(Parent)) {
            P->Tree.push_back("group not below a feature");
          }
          G = static_cast<int>(O.G.size());
          O.G.push_back({R->getKind() == RKind::RK_ALTERNATIVE, PF ? PF->getName().str() : ""});
        }
        std::set<vfe::FeatureTreeNode *> Direct;
        for (auto *C : N->children()) {
          if (!C) {
            P->Tree.push_back("null child below " + Nm);
            continue;
          }
          Direct.insert(C);
          Walk(C, N, PF, IsF ? -1 : G);
        }
        std::set<vfe::FeatureTreeNode *> Dq;
        for (auto *C : N->getChildren<vfe::FeatureTreeNode>(1)) {
          Dq.insert(C);
        }
        if (Dq != Direct) {
          P->Tree.push_back("getChildren(1) differs from the children of " + Nm);
        }
        if (N->isLeaf() != Direct.empty()) {
          P->Tree.push_back("isLeaf wrong for " + Nm);
        }
      };
  Walk(Root, nullptr, nullptr, -1);
  size_t Count = 0;
  for (auto *F : M.unorderedFeatures()) {
    ++Count;
    if (!Seen.count(F)) {
      P->Tree.push_back("not reachable from the root: " + F->getName().str());
    }
  }
  if (Count != O.F.size() || M.size() != O.F.size()) {
    P->Tree.push_back("size " + std::to_string(M.size()) + ", unordered " + std::to_string(Count) +
                      ", reachable " + std::to_string(O.F.size()));
  }
  if (SeenR != OwnR) {
    P->Tree.push_back("groups owned but not in the tree");
  }
  // constraints
  std::vector<vfe::Constraint *> Roots;
  auto Take = [&](vfe::Constraint *C, int Kind, std::vector<MCons> &To) -> MCons & {
    if (!C) {
      P->Link.push_back("null constraint");
      To.push_back({num(0), Kind});
      return To.back();
    }
    auto L = linkProblem(C, nullptr, C);
    if (!L.empty()) {
      P->Link.push_back(L);
    }
    Roots.push_back(C);
    To.push_back({fromLib(C), Kind});
    return To.back();
  };
  for (auto &&C : M.booleanConstraints()) {
    Take(C->constraint(), 0, O.B);
  }
  for (auto &&C : M.nonBooleanConstraints()) {
    Take(C->constraint(), 1, O.N);
  }
  for (auto &&C : M.mixedConstraints()) {
    auto &X = Take(C->constraint(), 2, O.M);
    X.All = C->req() == FM::MixedConstraint::Req::ALL;
    X.Neg = C->exprKind() == FM::MixedConstraint::ExprKind::NEG;
  }
  // mentions
  std::map<vfe::Feature *, std::set<vfe::Constraint *>> Ment, MImp, MExc;
  std::set<vfe::Constraint *> AllNodes;
  for (auto *C : Roots) {
    std::function<void(vfe::Constraint *)> Leaves = [&](vfe::Constraint *X) {
      AllNodes.insert(X);
      if (auto *L = llvm::dyn_cast<vfe::PrimaryFeatureConstraint>(X)) {
        auto *F = L->getFeature();
        if (!F) {
          P->Link.push_back("mention without feature");
          return;
        }
        if (!Seen.count(F)) {
          // do not touch it: it may be gone
          P->Link.push_back("constraint mentions a feature that is not the model's own");
          return;
        }
        if (M.getFeature(F->getName()) != F) {
          P->Link.push_back("mention of " + F->getName().str() + " is not the model's feature");
        }
        Ment[F].insert(C);
        if (llvm::isa<vfe::ImpliesConstraint>(C)) {
          MImp[F].insert(C);
        }
        if (llvm::isa<vfe::ExcludesConstraint>(C)) {
          MExc[F].insert(C);
        }
        return;
      }
      if (llvm::isa<vfe::PrimaryIntegerConstraint>(X)) {
        return;
      }
      if (X->getKind() == vfe::Constraint::ConstraintKind::CK_NOT ||
          X->getKind() == vfe::Constraint::ConstraintKind::CK_NEG) {
        Leaves(static_cast<vfe::UnaryConstraint *>(X)->getOperand());
        return;
      }
      auto *B = static_cast<vfe::BinaryConstraint *>(X);
      Leaves(B->getLeftOperand());
      Leaves(B->getRightOperand());
    };
    Leaves(C);
  }
  for (auto *N : Seen) {
    auto *F = llvm::dyn_cast<vfe::Feature>(N);
    if (!F) {
      continue;
    }
    std::set<vfe::Constraint *> Got;
    bool Bad = false;
    for (auto *C : F->constraints()) {
      if (!AllNodes.count(C)) {
        Bad = true; // stale: do not touch
        continue;
      }
      Got.insert(C->getRoot());
    }
    if (Bad) {
      P->List.push_back(F->getName().str() + " lists a constraint the model does not have");
    } else if (Got != Ment[F]) {
      P->List.push_back(F->getName().str() + " lists " + std::to_string(Got.size()) +
                        " constraints, occurs in " + std::to_string(Ment[F].size()));
    }
    auto Cmp = [&](auto Range, std::set<vfe::Constraint *> &Want, const char *What) {
      std::set<vfe::Constraint *> S;
      size_t K = 0;
      for (auto *C : Range) {
        S.insert(C);
        ++K;
      }
      if (S != Want || K != Want.size()) {
        P->List.push_back(F->getName().str() + " lists " + std::to_string(K) + " " + What +
                          ", has " + std::to_string(Want.size()));
      }
    };
    Cmp(F->implications(), MImp[F], "implications");
    Cmp(F->excludes(), MExc[F], "exclusions");
  }
  return O;
}

// snapshot that must be sound in every respect
inline Model sound(Ctx &C, const FM &M, const std::string &What) {
  Problems P;
  auto S = snap(M, &P);
  if (!P.Tree.empty()) {
    C.fail("tree", What + ": " + P.all());
  }
  if (!P.Link.empty() || !P.List.empty()) {
    C.fail("constraint-links", What + ": " + P.all());
  }
  return S;
}

//===-------------------------------------------------------------------===//
// generator

struct GenOpt {
  size_t MinF = 1, MaxF = 9; // besides the root
  bool Numeric = true;
  bool NumLeaf = false; // numeric features are leaves outside groups, small domains
  int Groups = 2;       // 0 none, 1 all children of a feature, 2 any subsets
  bool OrGroups = true;
  bool OptInGroup = true;
  bool Locs = true;
  bool FullLocs = false; // locations have start and end
  bool Steps = true;
  bool IntSteps = false;
  size_t Cons = 5;
  bool Textual = false; // constraints only with operators of the text language (and A excludes B)
  bool SimpleImpl = true; // also simple implications / exclusions
  unsigned Twins = 8;     // percentage of models with names that differ in case only
  bool TwinSiblings = false; // also below one parent, where their order is open
  bool WeirdText = true;  // names of models, output strings, ... with any characters
  bool XmlRoot = false;   // root is called root or base
  bool EmptyOut = false;
  bool Meta = true;
};

inline std::string genText(Rng &R, bool Weird, bool Trim) {
  static const std::vector<std::string> Pool = {
      "-c", "--foo=", "-x ", "--level", "a", "Model", "x264", "/usr/src", "deadbeef", "--b c", "0"};
  static const std::vector<std::string> Ch = {
      "a", "Z", "0", "-", "_", " ", "<", ">", "&", "\"", "'", ";", "=", "/", "\\", ".", ",", "[", "]",
      "{", "}", "(", ")", "#", ":", "%", "!", "|", "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "$", "&amp;", "]]>"};
  std::string S;
  if (!Weird || R.chance(40)) {
    S = R.pick(Pool);
  } else {
    size_t L = 1 + R.below(R.chance(5) ? 60 : 8);
    while (L--) {
      S += R.pick(Ch);
    }
  }
  if (Trim) {
    S = llvm::StringRef(S).trim().str();
    if (S.empty()) {
      S = "t";
    }
  }
  return S;
}

inline MLoc genLoc(Rng &R, bool Full) {
  MLoc L;
  static const std::vector<std::string> Paths = {"src/a.cpp", "b.c", "/abs/x.h", "dir/deep/er/file.cc",
                                                 "with space.cpp", "x&y<z>.c", "\xc3\xa4.cpp",
                                                 "./a.cpp", "a/../b.c", "up//b.c", "../up.c", "dir/", "a/./b.c"};
  L.Path = R.pick(Paths);
  auto Pos = [&]() -> std::pair<unsigned, unsigned> {
    if (R.chance(5)) {
      return {static_cast<unsigned>(R.range(100000, INT32_MAX)), static_cast<unsigned>(R.below(100000))};
    }
    return {static_cast<unsigned>(R.below(300)), static_cast<unsigned>(R.below(120))};
  };
  if (Full || R.chance(80)) {
    L.S = Pos();
  }
  if (Full || R.chance(80)) {
    L.E = Pos();
  }
  L.Iness = R.chance(35);
  if (R.chance(35)) {
    static const std::vector<std::string> Ms = {"C::m", "ns::C::m", "::f", "A::B::C::d", "T<a,b>::x", "C::operator<"};
    L.Member = R.pick(Ms);
  }
  if (R.chance(40)) {
    static const std::vector<std::string> Cs = {"94fe792df46e64f438720295742b3b72c407cf6e", "abc", "1", "v1.2-3-gdead"};
    L.Rev = MRev{R.pick(Cs), std::nullopt};
    if (R.chance(60)) {
      L.Rev->Removed = R.pick(Cs);
    }
  }
  return L;
}

inline MStep genStep(Rng &R, bool IntOnly) {
  MStep S;
  S.VarLeft = R.chance(70);
  static const std::vector<std::string> Vars = {"x", "x", "x", "y", "value", "A"};
  S.Var = R.pick(Vars);
  switch (R.below(4)) {
  case 0:
  case 1:
    S.Op = '+';
    S.Num = std::to_string(R.range(1, 7));
    break;
  case 2:
    S.Op = '*';
    S.Num = std::to_string(R.range(2, 4));
    break;
  default:
    S.Op = '^';
    S.Num = std::to_string(R.range(2, 3));
  }
  if (!IntOnly && R.chance(30)) {
    static const std::vector<std::string> Fr = {"0.5", "1.25", "0.1", "3.75", "1000000", "0", "1", "0.001"};
    S.Num = R.pick(Fr);
  }
  return S;
}

inline Model genModel(Rng &R, const GenOpt &O) {
  Model M;
  if (O.Meta) {
    M.Name = genText(R, O.WeirdText, true);
    static const std::vector<std::string> Ps = {"", "/tmp/x", "a/b", ".", "/", "proj&co", "\xc3\xa4/b", "./x", "a/../b", "a//c", "x/"};
    M.Path = R.pick(Ps);
    M.Commit = R.chance(40) ? "" : genText(R, O.WeirdText, true);
  }
  size_t N = O.MinF + R.below(O.MaxF - O.MinF + 1);
  auto Names = genNames(R, N + 1, R.chance(O.Twins));
  static const std::vector<std::string> Roots = {"root", "root", "base"};
  M.Root = O.XmlRoot ? R.pick(Roots) : R.chance(50) ? R.pick(Roots) : Names[N];
  Names.resize(N);
  MFeat Rt;
  Rt.Name = M.Root;
  Rt.Kind = 'r';
  M.F[M.Root] = Rt;
  std::vector<std::string> Inner{M.Root};
  int Shape = static_cast<int>(R.below(4)); // 0 random, 1 deep, 2 flat, 3 random
  for (auto &Nm : Names) {
    MFeat X;
    X.Name = Nm;
    if (O.Numeric && R.chance(22)) {
      X.Kind = 'n';
    }
    X.Parent = Shape == 1 && R.chance(70)   ? Inner.back()
               : Shape == 2 && R.chance(80) ? M.Root
                                            : R.pick(Inner);
    auto HasTwin = [&](const std::string &P) {
      return llvm::any_of(M.F, [&](auto &E) {
        return E.second.Parent == P && E.second.Kind != 'r' && llvm::StringRef(E.first).equals_insensitive(Nm);
      });
    };
    if (!O.TwinSiblings && HasTwin(X.Parent)) {
      auto P = llvm::find_if(Inner, [&](auto &E) { return !HasTwin(E); });
      if (P == Inner.end()) {
        continue;
      }
      X.Parent = *P;
    }
    X.Opt = R.chance(45);
    if (!O.EmptyOut && R.chance(65)) {
      X.Out = genText(R, O.WeirdText, false);
      X.Out = llvm::StringRef(X.Out).ltrim().str();
    }
    if (X.Kind == 'n') {
      if (R.chance(50)) {
        X.IsRange = true;
        X.Lo = R.range(-3, 4);
        X.Hi = X.Lo + R.range(0, O.NumLeaf ? 5 : 40);
        if (!O.NumLeaf && R.chance(10)) {
          X.Lo = R.chance(50) ? INT64_MIN : -static_cast<int64_t>(R.next() >> 1);
          X.Hi = R.chance(50) ? INT64_MAX : static_cast<int64_t>(R.next() >> 1);
        }
        if (!O.NumLeaf && R.chance(5)) {
          X.Lo = X.Hi = 0;
        }
      } else {
        X.IsRange = false;
        size_t K = 1 + R.below(5);
        while (K--) {
          X.Vals.push_back(!O.NumLeaf && R.chance(8) ? (R.chance(50) ? INT64_MIN : INT64_MAX)
                                                     : R.range(-4, 12));
        }
      }
      if (O.Steps && R.chance(45)) {
        X.Step = genStep(R, O.IntSteps);
        X.StepSig = stepSig([&](double D) { return X.Step->val(D); });
        X.StepText = X.Step->text();
      }
    }
    if (O.Locs && R.chance(40)) {
      size_t K = 1 + R.below(3);
      while (K--) {
        X.Locs.push_back(genLoc(R, O.FullLocs));
      }
    }
    if (X.Kind == 'b' || !O.NumLeaf) {
      Inner.push_back(Nm);
    }
    M.F[Nm] = X;
  }
  if (O.Groups) {
    for (auto &P : M.names()) {
      if (!R.chance(45)) {
        continue;
      }
      auto Cs = M.childrenOf(P);
      if (O.NumLeaf) {
        Cs.erase(std::remove_if(Cs.begin(), Cs.end(), [&](auto &C) { return M.F[C].Kind == 'n'; }), Cs.end());
        if (O.Groups == 1 && Cs.size() != M.childrenOf(P).size()) {
          continue;
        }
      }
      if (Cs.empty()) {
        continue;
      }
      R.shuffle(Cs);
      int Gs = O.Groups == 1 ? 1 : static_cast<int>(1 + R.below(2));
      size_t At = 0;
      for (int G = 0; G < Gs && At < Cs.size(); ++G) {
        size_t K = O.Groups == 1 ? Cs.size() : 1 + R.below(Cs.size() - At);
        int Id = static_cast<int>(M.G.size());
        M.G.push_back({!O.OrGroups || R.chance(50), P});
        for (size_t I = 0; I < K; ++I, ++At) {
          M.F[Cs[At]].Group = Id;
          if (!O.OptInGroup) {
            M.F[Cs[At]].Opt = false;
          }
        }
      }
    }
  }
  // constraints
  std::vector<std::string> Bools, Nums, All;
  for (auto &[K, X] : M.F) {
    (X.Kind == 'n' ? Nums : Bools).push_back(K);
    All.push_back(K);
  }
  auto Sub = [&](std::vector<std::string> V) {
    R.shuffle(V);
    if (V.size() > 4) {
      V.resize(4);
    }
    return V;
  };
  size_t K = O.Cons ? R.below(O.Cons + 1) : 0;
  while (K--) {
    switch (R.below(6)) {
    case 0:
    case 1:
      if (O.SimpleImpl && Bools.size() > 1) {
        auto A = R.pick(Bools), B = R.pick(Bools);
        if (A != B || R.chance(35)) {
          M.B.push_back({bin(R.chance(50) ? Op::Imp : Op::Excl, feat(A), feat(B)), 0});
        }
        break;
      }
      [[fallthrough]];
    case 2:
    case 3:
      M.B.push_back({genBool(R, static_cast<int>(1 + R.below(3)), Sub(Bools), {}, O.Textual), 0});
      break;
    case 4:
      M.N.push_back({genBool(R, static_cast<int>(1 + R.below(3)), R.chance(30) ? Sub(Bools) : std::vector<std::string>{},
                             Nums.empty() ? Nums : Sub(Nums), O.Textual),
                     1});
      break;
    default: {
      auto V = Sub(All);
      static const std::vector<Op> Cmp = {Op::Lt, Op::Gt, Op::Le, Op::Ge, Op::Eq, Op::Ne};
      M.M.push_back({bin(R.pick(Cmp), genNum(R, 2, V, true), genNum(R, 1, V, true)), 2, R.chance(50), R.chance(40)});
    }
    }
  }
  return M;
}

inline bool isIdent(const std::string &S) {
  if (S.empty() || !std::isalpha(static_cast<unsigned char>(S[0])) || S == "or") {
    return false;
  }
  return std::all_of(S.begin(), S.end(), [](unsigned char C) { return C < 0x80 && (std::isalnum(C) || C == '_'); });
}

inline bool simplePair(const MCons &C) {
  return C.Kind == 0 && (C.X->O == Op::Imp || C.X->O == Op::Excl) && C.X->L->O == Op::Feat && C.X->R->O == Op::Feat;
}

// Renames some features that only occur in simple pairs to names that are no
// identifiers of the constraint language.
// Blank: also names that no text or document could keep.
inline void weirdNames(Rng &R, Model &M, bool Blank = false) {
  std::set<std::string> Fixed{M.Root};
  for (auto &C : M.allCons()) {
    if (!simplePair(C)) {
      feats(C.X, Fixed);
    }
  }
  static const std::vector<std::string> Pool = {"foo-bar", "a b c", "x<y", "\xc3\xa4\xc3\xb6", "1abc", "-5", "a.b.c", "or",
                                                "p&q", "Q\"u'o", "a|b", "_x", "(z)", "\xe2\x82\xac", "a=>b", "7"};
  std::map<std::string, std::string> To;
  auto Ps = Pool;
  if (Blank) {
    for (auto *N : {" ", " pad", "pad ", "pad", "t\tab", "nl\n", "\n", "{0}", "%s", "\\", "a;b", "\"", "'", "root ", "name,", "[x]", "\x7f"}) {
      Ps.push_back(N);
    }
  }
  R.shuffle(Ps);
  if (llvm::any_of(M.names(), [](auto &N) { return llvm::StringRef(N).equals_insensitive("or"); })) {
    llvm::erase_value(Ps, "or"); // siblings that differ in case only have no defined order
  }
  for (auto &N : M.names()) {
    if (!Fixed.count(N) && R.chance(30) && !Ps.empty()) {
      To[N] = Ps.back();
      Ps.pop_back();
    }
  }
  auto Map = [&](const std::string &S) { return To.count(S) ? To[S] : S; };
  std::map<std::string, MFeat> F;
  for (auto &[K, X] : M.F) {
    X.Name = Map(K);
    X.Parent = Map(X.Parent);
    F[X.Name] = X;
  }
  M.F = F;
  for (auto &G : M.G) {
    G.Parent = Map(G.Parent);
  }
  for (auto &C : M.B) {
    if (simplePair(C)) {
      C.X = bin(C.X->O, feat(Map(C.X->L->Name)), feat(Map(C.X->R->Name)));
    }
  }
}

// Makes the children of some features (nearly) exclude one another.
inline void addExclusions(Rng &R, Model &M, unsigned Parents, unsigned Spoil) {
  for (auto &P : M.names()) {
    auto Cs = M.childrenOf(P);
    if (Cs.size() < 2 || Cs.size() > 6 || !R.chance(Parents)) {
      continue;
    }
    std::vector<std::pair<std::string, std::string>> Ex;
    for (auto &A : Cs) {
      M.F[A].Opt = false;
      for (auto &B : Cs) {
        if (A != B) {
          Ex.push_back({A, B});
        }
      }
    }
    R.shuffle(Ex);
    if (R.chance(Spoil)) {
      switch (R.below(4)) {
      case 0: M.F[R.pick(Cs)].Opt = true; break;
      case 1: Ex.pop_back(); break;
      case 2: Ex.resize(R.below(Ex.size())); break;
      default: Ex.push_back(Ex[0]);
      }
    }
    for (auto &[A, B] : Ex) {
      M.B.push_back({bin(Op::Excl, feat(A), feat(B)), 0});
    }
  }
}

//===-------------------------------------------------------------------===//
// Model -> library

inline FSR mkLoc(const MLoc &L) {
  std::optional<FSR::FeatureSourceLocation> S, E;
  if (L.S) {
    S.emplace(L.S->first, L.S->second);
  }
  if (L.E) {
    E.emplace(L.E->first, L.E->second);
  }
  std::optional<FSR::FeatureMemberOffset> Mo;
  if (L.Member) {
    Mo = FSR::FeatureMemberOffset::createFeatureMemberOffset(*L.Member);
  }
  std::optional<FSR::FeatureRevisionRange> Rr;
  if (L.Rev) {
    if (L.Rev->Removed) {
      Rr.emplace(L.Rev->Intro, *L.Rev->Removed);
    } else {
      Rr.emplace(L.Rev->Intro);
    }
  }
  return FSR(fs::path(L.Path), S, E, L.Iness ? FSR::Category::inessential : FSR::Category::necessary, Mo, Rr);
}

inline std::vector<FSR> mkLocs(const MFeat &X) {
  std::vector<FSR> V;
  for (auto &L : X.Locs) {
    V.push_back(mkLoc(L));
  }
  return V;
}

inline std::unique_ptr<vfe::StepFunction> mkStep(const MFeat &X) {
  if (!X.Step) {
    return nullptr;
  }
  auto K = X.Step->Op == '+'   ? vfe::StepFunction::StepOperation::ADDITION
           : X.Step->Op == '*' ? vfe::StepFunction::StepOperation::MULTIPLICATION
                               : vfe::StepFunction::StepOperation::EXPONENTIATION;
  double N = std::strtod(X.Step->Num.c_str(), nullptr);
  return X.Step->VarLeft ? std::make_unique<vfe::StepFunction>(X.Step->Var, K, N)
                         : std::make_unique<vfe::StepFunction>(N, K, X.Step->Var);
}

inline vfe::NumericFeature::ValuesVariantType mkValues(const MFeat &X) {
  if (X.IsRange) {
    return std::make_pair(X.Lo, X.Hi);
  }
  return X.Vals;
}

inline std::unique_ptr<vfe::Feature> mkFeature(const MFeat &X) {
  switch (X.Kind) {
  case 'n':
    return std::make_unique<vfe::NumericFeature>(X.Name, mkValues(X), X.Opt, mkLocs(X), X.Out, mkStep(X));
  case 'r': return std::make_unique<vfe::RootFeature>(X.Name);
  case 'u': return std::make_unique<vfe::Feature>(X.Name);
  default: return std::make_unique<vfe::BinaryFeature>(X.Name, X.Opt, mkLocs(X), X.Out);
  }
}

// an expression with throw-away features of the right names
inline std::unique_ptr<vfe::Constraint> mkExpr(const E &X) { return toLib(X); }

inline std::unique_ptr<FM::BooleanConstraint> mkB(const MCons &C) {
  return std::make_unique<FM::BooleanConstraint>(mkExpr(C.X));
}
inline std::unique_ptr<FM::NonBooleanConstraint> mkN(const MCons &C) {
  return std::make_unique<FM::NonBooleanConstraint>(mkExpr(C.X));
}
inline std::unique_ptr<FM::MixedConstraint> mkM(const MCons &C) {
  return std::make_unique<FM::MixedConstraint>(
      mkExpr(C.X), C.All ? FM::MixedConstraint::Req::ALL : FM::MixedConstraint::Req::NONE,
      C.Neg ? FM::MixedConstraint::ExprKind::NEG : FM::MixedConstraint::ExprKind::POS);
}

// Through transactions.  Any groups.  Order of siblings and of independent
// steps is random.
inline std::unique_ptr<FM> buildTx(Rng &R, const Model &M) {
  auto Out = std::make_unique<FM>(M.Name, std::make_unique<vfe::RootFeature>(M.Root), fs::path(M.Path), M.Commit);
  std::vector<std::string> Todo;
  for (auto &[K, X] : M.F) {
    if (K != M.Root) {
      Todo.push_back(K);
    }
  }
  R.shuffle(Todo);
  while (!Todo.empty()) {
    auto T = vfe::FeatureModelModifyTransaction::openTransaction(*Out);
    std::vector<std::string> Later;
    for (auto &K : Todo) {
      auto *P = Out->getFeature(M.F.at(K).Parent);
      if (P) {
        if (P == Out->getRoot() && R.chance(30)) {
          T.addFeature(mkFeature(M.F.at(K)));
        } else {
          T.addFeature(mkFeature(M.F.at(K)), P);
        }
      } else {
        Later.push_back(K);
      }
    }
    if (!T.commit() || Later.size() == Todo.size()) {
      return nullptr;
    }
    Todo = Later;
  }
  for (size_t G = 0; G < M.G.size(); ++G) {
    {
      auto T = vfe::FeatureModelModifyTransaction::openTransaction(*Out);
      T.addRelationship(M.G[G].Alt ? RKind::RK_ALTERNATIVE : RKind::RK_OR, M.G[G].Parent);
      if (!T.commit()) {
        return nullptr;
      }
    }
    auto *P = Out->getFeature(M.G[G].Parent);
    auto T = vfe::FeatureModelModifyTransaction::openTransaction(*Out);
    bool Any = false;
    for (auto &C : M.childrenOf(M.G[G].Parent)) {
      // children of groups still to come return to their parent
      int X = M.F.at(C).Group;
      if (X == -1 || X > static_cast<int>(G)) {
        T.addChild(static_cast<vfe::FeatureTreeNode *>(P), static_cast<vfe::FeatureTreeNode *>(Out->getFeature(C)));
        Any = true;
      }
    }
    (void)Any;
    if (!T.commit()) {
      return nullptr;
    }
  }
  auto T = vfe::FeatureModelModifyTransaction::openTransaction(*Out);
  for (auto &C : M.B) {
    T.addConstraint(mkB(C));
  }
  for (auto &C : M.N) {
    T.addConstraint(mkN(C));
  }
  for (auto &C : M.M) {
    T.addConstraint(mkM(C));
  }
  if (!T.commit()) {
    return nullptr;
  }
  return Out;
}

// Describing calls for the builder, in random order (constraints keep theirs).
inline void describe(Rng &R, const Model &M, vfe::FeatureModelBuilder &FB, bool Shuffle = true) {
  std::vector<std::function<void()>> Calls;
  for (auto &[K, X] : M.F) {
    const MFeat *P = &X;
    if (X.Kind == 'r') {
      if (K != "root" || R.chance(50)) {
        Calls.push_back([&FB, P] { FB.makeRoot(P->Name); });
      }
      continue;
    }
    if (X.Kind == 'n') {
      Calls.push_back([&FB, P] {
        FB.makeFeature<vfe::NumericFeature>(P->Name, mkValues(*P), P->Opt, mkLocs(*P), P->Out, mkStep(*P));
      });
    } else {
      Calls.push_back([&FB, P] { FB.makeFeature<vfe::BinaryFeature>(P->Name, P->Opt, mkLocs(*P), P->Out); });
    }
    if (X.Parent != M.Root || R.chance(60)) {
      Calls.push_back([&FB, P] { FB.addEdge(P->Parent, P->Name); });
    }
  }
  for (auto &G : M.G) {
    const MGroup *P = &G;
    Calls.push_back([&FB, P] {
      FB.emplaceRelationship(P->Alt ? RKind::RK_ALTERNATIVE : RKind::RK_OR, P->Parent);
    });
  }
  Calls.push_back([&FB, &M] { FB.setVmName(M.Name); });
  Calls.push_back([&FB, &M] { FB.setPath(fs::path(M.Path)); });
  Calls.push_back([&FB, &M] { FB.setCommit(M.Commit); });
  for (auto &C : M.B) {
    const MCons *P = &C;
    Calls.push_back([&FB, P] { FB.addConstraint(mkB(*P)); });
  }
  for (auto &C : M.N) {
    const MCons *P = &C;
    Calls.push_back([&FB, P] { FB.addConstraint(mkN(*P)); });
  }
  for (auto &C : M.M) {
    const MCons *P = &C;
    Calls.push_back([&FB, P] { FB.addConstraint(mkM(*P)); });
  }
  if (Shuffle) {
    R.shuffle(Calls);
  }
  for (auto &F : Calls) {
    F();
  }
}

// Through the builder: only groups that hold all children of their parent.
inline std::unique_ptr<FM> buildBuilder(Rng &R, const Model &M) {
  vfe::FeatureModelBuilder FB;
  describe(R, M, FB);
  return FB.buildFeatureModel();
}

inline bool builderExpressible(const Model &M) {
  for (size_t G = 0; G < M.G.size(); ++G) {
    auto Cs = M.childrenOf(M.G[G].Parent), Ms = M.members(static_cast<int>(G));
    if (Cs != Ms) {
      return false;
    }
  }
  return true;
}

inline std::unique_ptr<FM> build(Rng &R, const Model &M) {
  if (builderExpressible(M) && R.chance(50)) {
    return buildBuilder(R, M);
  }
  return buildTx(R, M);
}

// groups that loading XML recognises
inline void detectAlternatives(Model &M) {
  std::set<std::pair<std::string, std::string>> Ex;
  for (auto &C : M.B) {
    if (C.X->O == Op::Excl && C.X->L->O == Op::Feat && C.X->R->O == Op::Feat) {
      Ex.insert({C.X->L->Name, C.X->R->Name});
    }
  }
  for (auto &P : M.names()) {
    auto Cs = M.childrenOf(P);
    bool Alt = Cs.size() > 1;
    for (auto &A : Cs) {
      Alt = Alt && !M.F[A].Opt;
      for (auto &B : Cs) {
        Alt = Alt && (A == B || Ex.count({A, B}));
      }
    }
    if (Alt) {
      for (auto &A : Cs) {
        M.F[A].Group = static_cast<int>(M.G.size());
      }
      M.G.push_back({true, P});
    }
  }
}

//===-------------------------------------------------------------------===//
// brute-force semantics

inline std::vector<int64_t> domain(const MFeat &X) {
  if (!X.IsRange) {
    auto V = X.Vals;
    std::sort(V.begin(), V.end());
    V.erase(std::unique(V.begin(), V.end()), V.end());
    return V;
  }
  std::vector<int64_t> V;
  int64_t S = X.Lo;
  while (S <= X.Hi && V.size() < 1000) {
    V.push_back(S);
    if (!X.Step) {
      if (S == X.Hi) {
        break;
      }
      ++S;
      continue;
    }
    double N = X.Step->val(static_cast<double>(S));
    if (!(N <= static_cast<double>(X.Hi)) || !(N < 0x1p63) || static_cast<int64_t>(N) <= S) {
      break;
    }
    S = static_cast<int64_t>(N);
  }
  return V;
}

inline bool consHolds(const Model &M, const MCons &C, const Env &En) {
  if (C.Kind == 2 && C.All) {
    std::set<std::string> S;
    feats(C.X, S);
    for (auto &F : S) {
      if (M.F.at(F).Kind != 'n' && !En.at(F)) {
        return true;
      }
    }
  }
  bool V = evalE(C.X, En) != 0;
  return C.Kind == 2 && C.Neg ? !V : V;
}

// why an assignment is no valid configuration ("" if it is)
// numeric features always have a value, their children depend on the next option above
inline std::string optionAbove(const Model &M, std::string P) {
  while (M.F.at(P).Kind == 'n') {
    P = M.F.at(P).Parent;
  }
  return P;
}
inline std::string invalid(const Model &M, const Env &En) {
  if (!En.at(M.Root)) {
    return "root";
  }
  for (auto &[K, X] : M.F) {
    if (X.Kind != 'b') {
      continue;
    }
    bool P = En.at(optionAbove(M, X.Parent)), S = En.at(K);
    if (S && !P) {
      return "parent of " + K;
    }
    if (P && !S && !X.Opt && X.Group < 0) {
      return "mandatory " + K;
    }
  }
  for (size_t G = 0; G < M.G.size(); ++G) {
    if (!En.at(optionAbove(M, M.G[G].Parent))) {
      continue;
    }
    int N = 0;
    for (auto &C : M.members(static_cast<int>(G))) {
      N += En.at(C) != 0;
    }
    if (N == 0 || (M.G[G].Alt && N > 1)) {
      return "group of " + M.G[G].Parent;
    }
  }
  for (auto *V : {&M.B, &M.N, &M.M}) {
    for (auto &C : *V) {
      if (!consHolds(M, C, En)) {
        return "constraint " + sexp(C.X);
      }
    }
  }
  return "";
}

inline std::string envText(const Model &M, const Env &En) {
  std::string S;
  for (auto &[K, V] : En) {
    auto It = M.F.find(K);
    bool Num = It != M.F.end() && It->second.Kind == 'n';
    S += K + "=" + (Num ? std::to_string(V) : V ? "true" : "false") + " ";
  }
  return S;
}

// every assignment over the domains; nullopt when there are too many
inline std::optional<std::set<std::string>> enumerate(const Model &M, uint64_t Max, uint64_t *Tried = nullptr) {
  std::vector<std::string> Names;
  std::vector<std::vector<int64_t>> Dom;
  uint64_t N = 1;
  for (auto &[K, X] : M.F) {
    Names.push_back(K);
    Dom.push_back(X.Kind == 'n' ? domain(X) : X.Kind == 'r' ? std::vector<int64_t>{1} : std::vector<int64_t>{0, 1});
    N *= Dom.back().size();
    if (N > Max) {
      return std::nullopt;
    }
  }
  std::set<std::string> Out;
  if (N == 0) {
    return Out;
  }
  if (Tried) {
    *Tried = N;
  }
  std::vector<size_t> At(Names.size(), 0);
  Env En;
  for (size_t I = 0; I < Names.size(); ++I) {
    En[Names[I]] = Dom[I][0];
  }
  while (true) {
    if (invalid(M, En).empty()) {
      Out.insert(envText(M, En));
    }
    size_t I = 0;
    for (; I < Names.size(); ++I) {
      if (++At[I] < Dom[I].size()) {
        En[Names[I]] = Dom[I][At[I]];
        break;
      }
      At[I] = 0;
      En[Names[I]] = Dom[I][0];
    }
    if (I == Names.size()) {
      return Out;
    }
  }
}

//===-------------------------------------------------------------------===//
// XML text in any style

struct XmlStyle {
  bool Plain = false; // no random style
  bool DocType = true;
};

inline std::string xmlEsc(Rng &R, const std::string &S, bool Attr, bool Plain) {
  std::string O;
  for (size_t I = 0; I < S.size(); ++I) {
    unsigned char C = static_cast<unsigned char>(S[I]);
    char B[16];
    if (C == '&') {
      O += "&amp;";
    } else if (C == '<') {
      O += "&lt;";
    } else if (C == '>') {
      O += "&gt;";
    } else if (C == '"' && Attr) {
      O += "&quot;";
    } else if ((C == '\t' || C == '\n' || C == '\r')) {
      std::snprintf(B, sizeof B, "&#%d;", C);
      O += B;
    } else if (!Plain && C < 0x80 && R.chance(3)) {
      std::snprintf(B, sizeof B, R.chance(50) ? "&#x%x;" : "&#%d;", C);
      O += B;
    } else {
      O += static_cast<char>(C);
    }
  }
  return O;
}

class XmlOut {
public:
  XmlOut(Rng &R, const Model &M, XmlStyle St) : R(R), M(M), St(St) {}
  std::string S;
  // which options to leave out of the root's own entry etc. is decided here
  std::string text() {
    S += St.Plain || R.chance(70) ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" : "";
    gap();
    if (St.DocType && (St.Plain || R.chance(70))) {
      S += "<!DOCTYPE vm SYSTEM \"vm.dtd\">";
      gap();
    }
    S += "<vm";
    std::vector<std::string> At;
    At.push_back("name=" + attr(pad(M.Name)));
    At.push_back("root=" + attr(pad(M.Path)));
    if (!M.Commit.empty() || coin(20)) {
      At.push_back("commit=" + attr(pad(M.Commit)));
    }
    if (!St.Plain) {
      R.shuffle(At);
    }
    for (auto &A : At) {
      S += " " + A;
    }
    S += ">";
    gap();
    assignEdges();
    splitCons();
    std::vector<std::string> Bin, Num;
    for (auto &[K, X] : M.F) {
      if (X.Kind == 'n') {
        Num.push_back(K);
      } else if (X.Kind != 'r' || M.Root != "root" || NeedRoot || R.chance(60)) {
        Bin.push_back(K);
      }
    }
    if (!St.Plain) {
      R.shuffle(Bin);
      R.shuffle(Num);
    }
    open("binaryOptions");
    for (auto &K : Bin) {
      option(M.F.at(K));
    }
    close("binaryOptions");
    if (!Num.empty() || coin(40)) {
      open("numericOptions");
      for (auto &K : Num) {
        option(M.F.at(K));
      }
      close("numericOptions");
    }
    cons("booleanConstraints", Rest);
    cons("nonBooleanConstraints", M.N);
    cons("mixedConstraints", M.M);
    S += "</vm>";
    gap();
    return S;
  }

private:
  bool coin(unsigned P) { return !St.Plain && R.chance(P); }
  void gap() {
    if (St.Plain) {
      S += "\n";
      return;
    }
    static const std::vector<std::string> W = {"", "\n", "\n  ", " ", "\t", "\r\n", "\n\n"};
    S += R.pick(W);
    if (R.chance(4)) {
      S += "<!-- note: <name>x</name> -->";
    }
  }
  std::string pad(const std::string &T) {
    if (St.Plain) {
      return T;
    }
    static const std::vector<std::string> W = {"", "", "", " ", "\n", "\n    ", "\t"};
    return R.pick(W) + T + R.pick(W);
  }
  std::string attr(const std::string &T) {
    // raw white space in attributes becomes a blank: fine, it is trimmed
    return "\"" + xmlEsc(R, T, true, St.Plain) + "\"";
  }
  std::string pcdata(const std::string &T) {
    if (!St.Plain && R.chance(6) && T.find("]]>") == std::string::npos && T.find('\r') == std::string::npos) {
      return "<![CDATA[" + T + "]]>";
    }
    // padding must stay literal
    std::string O;
    size_t A = 0, B = T.size();
    while (A < B && std::isspace(static_cast<unsigned char>(T[A]))) {
      O += T[A++];
    }
    std::string Tail;
    while (B > A && std::isspace(static_cast<unsigned char>(T[B - 1]))) {
      Tail = T[--B] + Tail;
    }
    // a plain carriage return would be read as a line break
    auto Cr = [](const std::string &P) {
      std::string X;
      for (char Ch : P) {
        X += Ch == '\r' ? std::string("&#13;") : std::string(1, Ch);
      }
      return X;
    };
    return Cr(O) + Cr(xmlEsc(R, T.substr(A, B - A), false, St.Plain)) + Cr(Tail);
  }
  void open(const std::string &N, const std::string &At = "") {
    S += "<" + N + At + (coin(10) ? " " : "") + ">";
    gap();
  }
  void close(const std::string &N) {
    S += "</" + N + (coin(5) ? " " : "") + ">";
    gap();
  }
  void leaf(const std::string &N, const std::string &T, bool Pad = true, const std::string &At = "") {
    S += "<" + N + At + ">" + pcdata(Pad ? pad(T) : T) + "</" + N + ">";
    gap();
  }
  void assignEdges() {
    for (auto &[K, X] : M.F) {
      if (X.Kind == 'r') {
        continue;
      }
      unsigned Mode = St.Plain ? 2 : static_cast<unsigned>(R.below(3));
      if (X.Parent == M.Root && coin(40)) {
        continue; // below the root by default
      }
      if (Mode != 0) {
        ByChild.insert(K);
      }
      if (Mode != 1) {
        ByParent[X.Parent].push_back(K);
        NeedRoot = NeedRoot || X.Parent == M.Root;
      }
    }
  }
  void splitCons() {
    for (auto &C : M.B) {
      bool Simple = (C.X->O == Op::Imp || C.X->O == Op::Excl) && C.X->L->O == Op::Feat && C.X->R->O == Op::Feat;
      bool Weird = Simple && (!isIdent(C.X->L->Name) || !isIdent(C.X->R->Name));
      if (Simple && C.X->O == Op::Excl) {
        Exc[C.X->L->Name].push_back(C.X->R->Name);
        NeedRoot = NeedRoot || C.X->L->Name == M.Root;
      } else if (Simple && (Weird || !coin(40))) {
        Imp[C.X->L->Name].push_back(C.X->R->Name);
        NeedRoot = NeedRoot || C.X->L->Name == M.Root;
      } else {
        Rest.push_back(C);
      }
    }
  }
  void list(const char *N, std::vector<std::string> V) {
    if (V.empty() && !coin(5)) {
      return;
    }
    if (!St.Plain) {
      R.shuffle(V);
    }
    open(N);
    for (auto &X : V) {
      leaf("options", X);
    }
    close(N);
  }
  void option(const MFeat &X) {
    open("configurationOption");
    leaf("name", X.Name);
    if (X.Kind != 'r' && (!X.Out.empty() || coin(15))) {
      // leading white space is dropped, the rest is kept
      leaf("outputString", (coin(20) ? " " : "") + X.Out, false);
    }
    if (coin(8)) {
      leaf(R.chance(50) ? "prefix" : "preFix", "p");
    }
    if (coin(8)) {
      leaf(R.chance(50) ? "postfix" : "postFix", "q");
    }
    if (X.Kind != 'r' && ByChild.count(X.Name)) {
      leaf("parent", X.Parent);
    } else if (coin(10)) {
      S += R.chance(50) ? "<parent/>" : "<parent> </parent>";
    }
    list("children", ByParent[X.Name]);
    list("impliedOptions", Imp[X.Name]);
    list("excludedOptions", Exc[X.Name]);
    if (coin(10)) {
      leaf("defaultValue", "3");
    }
    if (X.Opt || coin(60)) {
      static const std::vector<std::string> No = {"False", "False", "false", "", "no"};
      leaf("optional", X.Opt ? "True" : R.pick(No));
    }
    if (X.Kind == 'n') {
      if (!X.IsRange) {
        std::string T;
        static const std::vector<std::string> Sep = {";", "; ", " ", ",", "\n", " ; "};
        std::string Sp = St.Plain ? ";" : R.pick(Sep);
        for (size_t I = 0; I < X.Vals.size(); ++I) {
          T += (I ? Sp : "") + std::to_string(X.Vals[I]);
        }
        if (coin(10)) {
          T += ";";
        }
        leaf("values", T);
      } else if (X.Lo || X.Hi || !coin(30)) {
        leaf("minValue", std::to_string(X.Lo));
        leaf("maxValue", std::to_string(X.Hi));
      }
      if (X.Step) {
        std::string T = X.StepText;
        if (coin(40)) {
          T.erase(std::remove(T.begin(), T.end(), ' '), T.end());
        }
        leaf("stepFunction", T);
      }
    } else if (coin(4) && X.Kind == 'b') {
      leaf("minValue", "1");
      leaf("maxValue", "2");
    }
    if (X.Kind != 'r' && (!X.Locs.empty() || coin(5))) {
      open("locations");
      for (auto &L : X.Locs) {
        loc(L);
      }
      close("locations");
    }
    close("configurationOption");
  }
  void loc(const MLoc &L) {
    open("sourceRange", L.Iness ? " category=\"inessential\"" : coin(50) ? "" : " category=\"necessary\"");
    if (L.Rev) {
      open("revisionRange");
      leaf("introduced", L.Rev->Intro);
      if (L.Rev->Removed) {
        leaf("removed", *L.Rev->Removed);
      } else if (coin(10)) {
        leaf("removed", "");
      }
      close("revisionRange");
    }
    leaf("path", L.Path);
    for (int I = 0; I < 2; ++I) {
      auto &P = I ? L.E : L.S;
      open(I ? "end" : "start");
      leaf("line", std::to_string(P->first));
      leaf("column", std::to_string(P->second));
      close(I ? "end" : "start");
    }
    if (L.Member) {
      leaf("memberOffset", *L.Member);
    }
    close("sourceRange");
  }
  void cons(const char *N, const std::vector<MCons> &V) {
    if (V.empty() && !coin(20)) {
      return;
    }
    auto Sh = V;
    if (!St.Plain) {
      R.shuffle(Sh);
    }
    open(N);
    for (auto &C : Sh) {
      Spell Sp;
      if (!St.Plain && R.chance(70)) {
        Sp.R = &R;
        Sp.Tight = R.chance(30);
        Sp.Extra = R.chance(30) ? 15 : 0;
        Sp.Sci = true;
      }
      std::string At;
      if (C.Kind == 2) {
        At += C.All ? (coin(30) ? "" : " req=\"all\"") : " req=\"none\"";
        At += C.Neg ? " exprKind=\"neg\"" : (coin(30) ? "" : " exprKind=\"pos\"");
      } else if (coin(5)) {
        At += " req=\"none\"";
      }
      leaf("constraint", vf::text(C.X, Sp), true, At);
    }
    close(N);
  }
  Rng &R;
  const Model &M;
  XmlStyle St;
  bool NeedRoot = false;
  std::set<std::string> ByChild;
  std::map<std::string, std::vector<std::string>> ByParent, Imp, Exc;
  std::vector<MCons> Rest;
};

// The model a document written from M describes (A excludes B in text form
// becomes A => !B, the root carries nothing).
inline Model xmlMeaning(Model M) {
  for (auto *V : {&M.B, &M.N, &M.M}) {
    for (auto &C : *V) {
      bool List = C.Kind == 0 && C.X->O == Op::Excl && C.X->L->O == Op::Feat && C.X->R->O == Op::Feat;
      if (!List) {
        C.X = normExcl(C.X);
      }
    }
  }
  detectAlternatives(M);
  return M;
}

} // namespace vf

#endif
