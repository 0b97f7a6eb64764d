// Edit operations on feature models: a generator, their meaning on the
// reference model, and their execution through transactions.
#ifndef VERIF_OPS_H
#define VERIF_OPS_H
#include "model.h"

namespace vf {
using ModTx = vfe::FeatureModelModifyTransaction;
using CopyTx = vfe::FeatureModelCopyTransaction;
using FV = vfe::detail::FeatureVariantTy;
using NV = vfe::detail::FeatureTreeNodeVariantTy;

struct EditOp {
  enum K {
    AddF, RemF, AddG, RemG, AddL, RemL, AddC, Name, Commit, Path, SetRoot, Child, ChildToGroup, MoveGroup
  } Kind = Name;
  std::string A, B; // subject, target
  bool PtrA = false, PtrB = false;
  bool Flag = false; // recursive, alternative
  int Group = -1;    // group of the model the transaction was opened on
  MFeat F;
  MLoc L;
  MCons C;
  std::string text() const {
    static const char *N[] = {"addFeature", "removeFeature", "addRelationship", "removeRelationship", "addLocation",
                              "removeLocation", "addConstraint", "setName", "setCommit", "setPath", "setRoot",
                              "addChild", "addChild(to group)", "addChild(group)"};
    std::string S = N[Kind];
    S += " <" + A + ">" + (PtrA ? "*" : "");
    if (!B.empty()) {
      S += " <" + B + ">" + (PtrB ? "*" : "");
    }
    if (Kind == RemF) {
      S += Flag ? " recursive" : "";
    }
    if (Kind == AddG) {
      S += Flag ? " alternative" : " or";
    }
    if (Kind == AddL || Kind == RemL) {
      S += " " + locText(L);
    }
    if (Kind == AddC) {
      S += " " + consText(C, {});
    }
    if (Kind == AddF) {
      S += " " + featText(F, {});
    }
    return S;
  }
};

inline std::vector<int> groupsOf(const Model &M, const std::string &P) {
  std::vector<int> V;
  for (size_t I = 0; I < M.G.size(); ++I) {
    if (M.G[I].Parent == P) {
      V.push_back(static_cast<int>(I));
    }
  }
  return V;
}

inline bool sameLoc(const MLoc &A, const MLoc &B) {
  return fs::path(A.Path) == fs::path(B.Path) && A.S == B.S && A.E == B.E && A.Iness == B.Iness && A.Member == B.Member;
}

inline void eraseSubtree(Model &M, const std::string &Top) {
  for (auto &C : M.childrenOf(Top)) {
    eraseSubtree(M, C);
  }
  M.erase(Top);
}

// "" or the reason for refusal; a refused operation changes nothing.
// GroupMap: groups of the original model -> current index (-1 when gone).
inline std::string applyOp(Model &M, const EditOp &O, std::vector<int> &GroupMap) {
  auto Has = [&](const std::string &N) { return M.F.count(N) > 0; };
  auto DropGroup = [&](int I) {
    M.eraseGroup(I);
    for (auto &X : GroupMap) {
      X = X == I ? -1 : X > I ? X - 1 : X;
    }
  };
  auto DropFeature = [&](const std::string &N) {
    for (auto Gs = groupsOf(M, N); !Gs.empty(); Gs = groupsOf(M, N)) {
      DropGroup(Gs.back());
    }
    M.erase(N);
  };
  switch (O.Kind) {
  case EditOp::AddF: {
    if (!O.B.empty() && !Has(O.B)) {
      return "missing parent";
    }
    if (Has(O.F.Name)) {
      return "present";
    }
    auto X = O.F;
    X.Parent = O.B.empty() ? M.Root : O.B;
    X.Group = -1;
    M.F[X.Name] = X;
    return "";
  }
  case EditOp::RemF: {
    if (!Has(O.A)) {
      return "missing";
    }
    if (O.A == M.Root) {
      return "root";
    }
    if (!O.Flag && !M.childrenOf(O.A).empty()) {
      return "inner feature";
    }
    std::function<void(const std::string &)> Go = [&](const std::string &N) {
      for (auto &C : M.childrenOf(N)) {
        Go(C);
      }
      DropFeature(N);
    };
    Go(O.A);
    return "";
  }
  case EditOp::AddG: {
    if (!Has(O.A)) {
      return "missing";
    }
    int Id = static_cast<int>(M.G.size());
    M.G.push_back({O.Flag, O.A});
    for (auto &C : M.childrenOf(O.A)) {
      if (M.F[C].Group < 0) {
        M.F[C].Group = Id;
      }
    }
    return "";
  }
  case EditOp::RemG: {
    if (!Has(O.A)) {
      return "missing";
    }
    auto Gs = groupsOf(M, O.A);
    if (Gs.empty()) {
      return "no group";
    }
    DropGroup(Gs[0]);
    return "";
  }
  case EditOp::AddL:
    if (!Has(O.A)) {
      return "missing";
    }
    M.F[O.A].Locs.push_back(O.L);
    return "";
  case EditOp::RemL: {
    if (!Has(O.A)) {
      return "missing";
    }
    auto &V = M.F[O.A].Locs;
    auto It = std::find_if(V.begin(), V.end(), [&](auto &X) { return sameLoc(X, O.L); });
    if (It != V.end()) {
      V.erase(It);
    }
    return "";
  }
  case EditOp::AddC: {
    std::set<std::string> S;
    feats(O.C.X, S);
    for (auto &N : S) {
      if (!Has(N)) {
        return "missing";
      }
    }
    (O.C.Kind == 0 ? M.B : O.C.Kind == 1 ? M.N : M.M).push_back(O.C);
    return "";
  }
  case EditOp::Name: M.Name = O.A; return "";
  case EditOp::Commit: M.Commit = O.A; return "";
  case EditOp::Path: M.Path = O.A; return "";
  case EditOp::SetRoot: {
    if (O.A == M.Root) {
      return "";
    }
    if (Has(O.A)) {
      return "present";
    }
    auto Old = M.Root;
    MFeat X;
    X.Name = O.A;
    X.Kind = 'r';
    M.F[O.A] = X;
    for (auto &[K, Y] : M.F) {
      if (Y.Parent == Old) {
        Y.Parent = O.A;
      }
    }
    for (auto &G : M.G) {
      if (G.Parent == Old) {
        G.Parent = O.A;
      }
    }
    M.Root = O.A;
    M.erase(Old);
    return "";
  }
  case EditOp::Child:
    if (!Has(O.A)) {
      return "missing child";
    }
    if (!Has(O.B)) {
      return "missing parent";
    }
    if (M.isBelow(O.B, O.A)) {
      return "cycle";
    }
    M.F[O.A].Parent = O.B;
    M.F[O.A].Group = -1;
    return "";
  case EditOp::ChildToGroup: {
    if (!Has(O.A)) {
      return "missing child";
    }
    int G = GroupMap[O.Group];
    if (G < 0) {
      return "missing group";
    }
    auto P = M.G[G].Parent;
    if (M.isBelow(P, O.A)) {
      return "cycle";
    }
    M.F[O.A].Parent = P;
    M.F[O.A].Group = G;
    return "";
  }
  case EditOp::MoveGroup: {
    int G = GroupMap[O.Group];
    if (G < 0) {
      return "missing group";
    }
    if (!Has(O.B)) {
      return "missing parent";
    }
    for (auto &X : M.members(G)) {
      if (M.isBelow(O.B, X)) {
        return "cycle";
      }
    }
    for (auto &X : M.members(G)) {
      M.F[X].Parent = O.B;
    }
    M.G[G].Parent = O.B;
    return "";
  }
  }
  return "?";
}

// Names removed so far in the transaction must not be used through pointers.
struct OpGen {
  Rng &R;
  Model M;                       // as the operations so far leave it
  const Model Start;             // when the transaction was opened
  std::set<std::string> Gone;    // removed at some point
  std::vector<int> GroupMap;
  bool Bad;                      // also generate operations that are refused
  bool Groups;                   // also operations on group nodes
  int Fresh = 0;
  OpGen(Rng &R, const Model &M, bool Bad, bool Groups) : R(R), M(M), Start(M), Bad(Bad), Groups(Groups) {
    for (size_t I = 0; I < M.G.size(); ++I) {
      GroupMap.push_back(static_cast<int>(I));
    }
  }
  bool ptrOk(const std::string &N) { return Start.F.count(N) && !Gone.count(N); }
  std::string any() { return R.pick(M.names()); }
  std::string some() { // usually existing
    if (Bad && R.chance(12)) {
      return R.chance(50) || Gone.empty() ? "Missing" + std::to_string(R.below(3))
                                          : *std::next(Gone.begin(), static_cast<long>(R.below(Gone.size())));
    }
    return any();
  }
  std::string fresh() {
    if (!Gone.empty() && R.chance(25)) {
      auto N = *std::next(Gone.begin(), static_cast<long>(R.below(Gone.size())));
      if (!M.F.count(N)) {
        return N;
      }
    }
    static const std::vector<std::string> P = {"New", "zeta", "Alpha", "alpha2", "B-c", "_n"};
    std::string N;
    do {
      N = R.pick(P) + std::to_string(Fresh++);
    } while (M.F.count(N));
    return N;
  }
  EditOp gen(size_t MaxDistinct = 30) {
    EditOp O;
    switch (R.below(17)) {
    case 0:
    case 1:
    case 2:
    case 3: {
      O.Kind = EditOp::AddF;
      GenOpt G;
      G.MinF = G.MaxF = 1;
      G.Cons = 0;
      G.Meta = false;
      auto X = genModel(R, G);
      for (auto &[K, F] : X.F) {
        if (K != X.Root) {
          O.F = F;
        }
      }
      O.F.Locs.erase(std::unique(O.F.Locs.begin(), O.F.Locs.end(), sameLoc), O.F.Locs.end());
      O.F.Name = Bad && R.chance(8) ? any() : fresh();
      O.A = O.F.Name;
      if (R.chance(70)) {
        O.B = any();
        if (!ptrOk(O.B)) {
          O.B = "";
        }
        O.PtrB = !O.B.empty();
      }
      break;
    }
    case 4:
    case 5:
      O.Kind = EditOp::RemF;
      O.A = some();
      O.Flag = R.chance(45);
      if (!Bad && O.A == M.Root) {
        return gen();
      }
      if (!Bad && !O.Flag && !M.childrenOf(O.A).empty()) {
        O.Flag = true;
      }
      if (O.Flag && M.F.count(O.A) && O.A != M.Root && M.F.size() > 6 && R.chance(50)) {
        // spare the big subtrees now and then
        if (M.childrenOf(O.A).size() > 2) {
          return gen();
        }
      }
      break;
    case 6:
      O.Kind = EditOp::AddG;
      O.A = some();
      O.Flag = R.chance(50);
      break;
    case 7:
      O.Kind = EditOp::RemG;
      O.A = some();
      if (M.F.count(O.A)) {
        auto N = groupsOf(M, O.A).size();
        if (N > 1 || (!Bad && N == 0)) {
          // which of several groups goes is not specified
          O.A = "";
          for (auto &P : M.names()) {
            if (groupsOf(M, P).size() == 1) {
              O.A = P;
            }
          }
          if (O.A.empty()) {
            return gen();
          }
        }
      }
      break;
    case 8:
      O.Kind = EditOp::AddL;
      O.A = some();
      O.L = genLoc(R, false);
      if (M.F.count(O.A) && !M.F[O.A].Locs.empty() && R.chance(15)) {
        // equal to one that is there already, maybe at another revision
        auto Rev = O.L.Rev;
        O.L = R.pick(M.F[O.A].Locs);
        if (R.chance(60)) {
          O.L.Rev = Rev;
        }
      }
      break;
    case 9:
      O.Kind = EditOp::RemL;
      O.A = some();
      O.L = genLoc(R, false);
      if (M.F.count(O.A) && R.chance(80)) {
        for (auto &N : M.names()) {
          if (!M.F[N].Locs.empty() && R.chance(50)) {
            O.A = N;
          }
        }
        if (!M.F[O.A].Locs.empty()) {
          O.L = R.pick(M.F[O.A].Locs);
          if (R.chance(20)) {
            O.L.Rev.reset();
          }
          auto &V = M.F[O.A].Locs;
          if (std::count_if(V.begin(), V.end(), [&](auto &X) { return sameLoc(X, O.L); }) > 1) {
            return gen(); // which of several equal ones goes is open
          }
        }
      }
      break;
    case 10:
    case 11: {
      O.Kind = EditOp::AddC;
      std::vector<std::string> V = M.names();
      R.shuffle(V);
      if (V.size() > 4) {
        V.resize(4);
      }
      if (Bad && R.chance(12)) {
        V.push_back("Missing1");
      }
      O.C.Kind = static_cast<int>(R.below(3));
      O.C.X = O.C.Kind == 2 ? bin(Op::Ge, genNum(R, 2, V, false), num(R.range(0, 3)))
                            : genBool(R, static_cast<int>(R.range(1, 3)), V, {}, false);
      if (R.chance(30)) {
        O.C.X = bin(R.chance(50) ? Op::Imp : Op::Excl, feat(R.pick(V)), feat(R.pick(V)));
        O.C.Kind = 0;
      }
      O.C.All = R.chance(50);
      O.C.Neg = R.chance(50);
      break;
    }
    case 12:
      switch (R.below(3)) {
      case 0: O.Kind = EditOp::Name; O.A = genText(R, true, true); break;
      case 1: O.Kind = EditOp::Commit; O.A = R.chance(30) ? "" : genText(R, true, true); break;
      default: O.Kind = EditOp::Path; O.A = R.chance(20) ? "" : "some/new/path"; break;
      }
      break;
    case 13:
      if (!R.chance(30)) {
        return gen();
      }
      O.Kind = EditOp::SetRoot;
      O.A = R.chance(60) ? fresh() : R.chance(50) || !Bad ? M.Root : any();
      break;
    default:
      if (Groups && R.chance(35) && !GroupMap.empty()) {
        int G = static_cast<int>(R.below(GroupMap.size()));
        if (GroupMap[G] < 0) {
          return gen();
        }
        O.Group = G;
        if (R.chance(70)) {
          O.Kind = EditOp::ChildToGroup;
          O.A = some();
        } else {
          O.Kind = EditOp::MoveGroup;
          O.B = some();
        }
      } else {
        O.Kind = EditOp::Child;
        O.A = some();
        O.B = some();
      }
      if (!Bad) {
        auto Copy = M;
        auto Map = GroupMap;
        if (!applyOp(Copy, O, Map).empty()) {
          return gen();
        }
      }
    }
    O.PtrA = ptrOk(O.A) && R.chance(50) && O.Kind != EditOp::AddF;
    if (O.Kind != EditOp::AddF) {
      O.PtrB = ptrOk(O.B) && R.chance(50);
    }
    return O;
  }
  // next operation and its result on the model
  std::string next(EditOp &O) {
    O = gen();
    auto Before = M.names();
    auto E = applyOp(M, O, GroupMap);
    for (auto &N : Before) {
      if (!M.F.count(N)) {
        Gone.insert(N);
      }
    }
    return E;
  }
};

// node handles into the model a transaction was opened on
struct Handles {
  std::map<std::string, vfe::Feature *> F;
  std::vector<vfe::Relationship *> G; // by group index of the snapshot
  explicit Handles(FM &M, const Model &S) {
    for (auto &[K, X] : S.F) {
      F[K] = M.getFeature(K);
    }
    G.assign(S.G.size(), nullptr);
    // the snapshot numbers groups in walking order: find by parent, kind and members
    std::vector<bool> Used(S.G.size(), false);
    for (auto &Rl : std::as_const(M).relationships()) {
      auto *P = llvm::dyn_cast_or_null<vfe::Feature>(Rl->getParent());
      std::set<std::string> Ms;
      for (auto *C : Rl->children()) {
        if (auto *Fe = llvm::dyn_cast<vfe::Feature>(C)) {
          Ms.insert(Fe->getName().str());
        }
      }
      for (size_t I = 0; I < S.G.size(); ++I) {
        auto V = S.members(static_cast<int>(I));
        if (!Used[I] && P && P->getName() == S.G[I].Parent && S.G[I].Alt == (Rl->getKind() == RKind::RK_ALTERNATIVE) &&
            Ms == std::set<std::string>(V.begin(), V.end())) {
          G[I] = Rl.get();
          Used[I] = true;
          break;
        }
      }
    }
  }
};

// Runs one operation; returns "" / "refused" for what reports at once.
template <class Tx> std::optional<std::string> stage(Tx &T, const EditOp &O, Handles &H) {
  constexpr bool Copy = std::is_same_v<Tx, CopyTx>;
  FV A = O.PtrA ? FV(H.F.at(O.A)) : FV(O.A);
  NV NA = O.PtrA ? NV(static_cast<vfe::FeatureTreeNode *>(H.F.at(O.A))) : NV(O.A);
  NV NB = O.PtrB ? NV(static_cast<vfe::FeatureTreeNode *>(H.F.at(O.B))) : NV(O.B);
  NV NG = O.Group >= 0 ? NV(static_cast<vfe::FeatureTreeNode *>(H.G.at(O.Group))) : NV(std::string());
  auto Ret = [](auto &&X) -> std::optional<std::string> { return X ? "" : "refused"; };
  switch (O.Kind) {
  case EditOp::AddF:
    if constexpr (Copy) {
      auto X = T.addFeature(mkFeature(O.F), O.PtrB ? H.F.at(O.B) : nullptr);
      if (X && (!X.extractValue())) {
        return "null";
      }
      return Ret(X);
    } else {
      T.addFeature(mkFeature(O.F), O.PtrB ? H.F.at(O.B) : nullptr);
      return std::nullopt;
    }
  case EditOp::RemF: T.removeFeature(A, O.Flag); return std::nullopt;
  case EditOp::AddG:
    if constexpr (Copy) {
      return Ret(T.addRelationship(O.Flag ? RKind::RK_ALTERNATIVE : RKind::RK_OR, A));
    } else {
      T.addRelationship(O.Flag ? RKind::RK_ALTERNATIVE : RKind::RK_OR, A);
      return std::nullopt;
    }
  case EditOp::RemG: T.removeRelationship(A); return std::nullopt;
  case EditOp::AddL: T.addLocation(A, mkLoc(O.L)); return std::nullopt;
  case EditOp::RemL: T.removeLocation(A, mkLoc(O.L)); return std::nullopt;
  case EditOp::AddC:
    if constexpr (Copy) {
      return O.C.Kind == 0 ? Ret(T.addConstraint(mkB(O.C)))
             : O.C.Kind == 1 ? Ret(T.addConstraint(mkN(O.C)))
                             : Ret(T.addConstraint(mkM(O.C)));
    } else {
      if (O.C.Kind == 0) {
        T.addConstraint(mkB(O.C));
      } else if (O.C.Kind == 1) {
        T.addConstraint(mkN(O.C));
      } else {
        T.addConstraint(mkM(O.C));
      }
      return std::nullopt;
    }
  case EditOp::Name: T.setName(O.A); return std::nullopt;
  case EditOp::Commit: T.setCommit(O.A); return std::nullopt;
  case EditOp::Path: T.setPath(fs::path(O.A)); return std::nullopt;
  case EditOp::SetRoot:
    if constexpr (Copy) {
      return Ret(T.setRoot(std::make_unique<vfe::RootFeature>(O.A)));
    } else {
      T.setRoot(std::make_unique<vfe::RootFeature>(O.A));
      return std::nullopt;
    }
  case EditOp::Child:
  case EditOp::ChildToGroup:
  case EditOp::MoveGroup: {
    auto Pn = O.Kind == EditOp::ChildToGroup ? NG : NB;
    auto Ch = O.Kind == EditOp::MoveGroup ? NG : NA;
    if constexpr (Copy) {
      return Ret(T.addChild(Pn, Ch));
    } else {
      T.addChild(Pn, Ch);
      return std::nullopt;
    }
  }
  }
  return std::nullopt;
}

// no feature has two equal locations (which of them goes would be unspecified)
inline void uniqueLocs(Model &M) {
  for (auto &[K, X] : M.F) {
    std::vector<MLoc> V;
    for (auto &L : X.Locs) {
      if (std::none_of(V.begin(), V.end(), [&](auto &Y) { return sameLoc(L, Y); })) {
        V.push_back(L);
      }
    }
    X.Locs = V;
  }
}

// turns some leaves into features of no particular kind
inline void someUnknown(Rng &R, Model &M, unsigned Pct) {
  for (auto &[K, X] : M.F) {
    if (X.Kind == 'b' && R.chance(Pct)) {
      auto P = X.Parent;
      auto G = X.Group;
      X = MFeat{};
      X.Name = K;
      X.Kind = 'u';
      X.Parent = P;
      X.Group = G;
    }
  }
}

} // namespace vf
#endif
