// C13: merging two models yields their union or refuses on conflict.
#include "ops.h"
using namespace vf;

namespace {
// the reference: nothing or the merged model
std::optional<Model> merged(const Model &A, const Model &B, bool Strict, std::string &Why) {
  if (A.Root != B.Root) {
    Why = "roots " + A.Root + ", " + B.Root;
    return std::nullopt;
  }
  Model M = A;
  for (auto &N : B.topDown()) {
    auto &X = B.F.at(N);
    auto It = M.F.find(N);
    if (It == M.F.end()) {
      auto Y = X;
      Y.Group = -1;
      M.F[N] = Y;
      continue;
    }
    auto &Y = It->second;
    if (X.Parent != Y.Parent) {
      Why = "parent of " + N;
      return std::nullopt;
    }
    if (Strict && N != A.Root) {
      bool Num = X.Kind == 'n' && Y.Kind == 'n';
      if (X.Kind != Y.Kind || X.Opt != Y.Opt || (X.Group >= 0) != (Y.Group >= 0) ||
          (Num && (X.IsRange != Y.IsRange || X.Lo != Y.Lo || X.Hi != Y.Hi || X.Vals != Y.Vals))) {
        Why = "property of " + N;
        return std::nullopt;
      }
    }
    for (auto &L : X.Locs) {
      if (std::none_of(Y.Locs.begin(), Y.Locs.end(), [&](auto &K) { return sameLoc(K, L); })) {
        Y.Locs.push_back(L);
      }
    }
  }
  return M;
}
// locations of a feature are a set here
std::string text(Model M) {
  for (auto &[K, X] : M.F) {
    std::sort(X.Locs.begin(), X.Locs.end(), [](auto &A, auto &B) { return locText(A) < locText(B); });
  }
  return canon(M);
}
void judge(Ctx &C, FM &A, FM &B, const Model &Ma, const Model &Mb, bool Strict, const std::string &What) {
  std::string Why;
  auto Want = merged(Ma, Mb, Strict, Why);
  auto Got = vfe::mergeFeatureModels(A, B, Strict);
  std::string W = What + (Strict ? " strict" : " lenient");
  C.note(std::string(Strict ? "strict_" : "lenient_") + (Want ? "merged" : "refused"));
  sameModel(C, sound(C, A, W + ": first input"), Ma, "input", W + ": first input changed");
  sameModel(C, sound(C, B, W + ": second input"), Mb, "input", W + ": second input changed");
  if (!Want) {
    C.note("refused_" + Why.substr(0, Why.find(' ')));
    C.check(!Got, "accepts", W + ": merged despite " + Why);
    return;
  }
  if (!C.check(Got != nullptr, "refuses", W + ": refused without conflict")) {
    return;
  }
  auto S = sound(C, *Got, W);
  C.check(text(S) == text(*Want), "result", W + ":\n" + diff(text(S), text(*Want)));
}
// B: A with changes
Model vary(Rng &R, const Model &A, const std::vector<std::string> &Fresh) {
  Model B = A;
  GenOpt G;
  G.Groups = 0;
  // another selection of constraints, name and so on
  B.Name = "second";
  if (R.chance(50)) {
    B.B.clear();
    B.N.clear();
    B.M.clear();
  }
  size_t Next = 0;
  for (uint64_t N = R.below(6); N; --N) {
    auto Ns = B.names();
    auto K = R.pick(Ns);
    auto &X = B.F.at(K);
    bool Root = K == B.Root;
    switch (R.below(10)) {
    case 0:
    case 1:
      if (!Root) {
        eraseSubtree(B, std::string(K));
        // groups without members
        for (size_t I = B.G.size(); I-- > 0;) {
          if (B.members(static_cast<int>(I)).empty()) {
            B.eraseGroup(static_cast<int>(I));
          }
        }
      }
      break;
    case 2:
    case 3:
    case 4:
      if (Next < Fresh.size() && !B.F.count(Fresh[Next])) {
        GenOpt O;
        O.MinF = O.MaxF = 1;
        O.Cons = 0;
        O.Meta = false;
        auto T = genModel(R, O);
        for (auto &[Z, Y] : T.F) {
          if (Z != T.Root) {
            auto Q = Y;
            Q.Name = Fresh[Next];
            Q.Parent = K;
            Q.Group = -1;
            B.F[Q.Name] = Q;
          }
        }
        ++Next;
      }
      break;
    case 5:
      if (!X.Locs.empty() && R.chance(50)) {
        auto &L = X.Locs[R.below(X.Locs.size())];
        switch (R.below(6)) {
        case 0: L.Iness = !L.Iness; break;
        case 1: L.Path += "x"; break;
        case 2: L.S = std::make_pair(1u, static_cast<unsigned>(R.below(9))); break;
        case 3: L.E.reset(); break;
        case 4: L.Member = "Q::q"; break;
        default: L.Rev = MRev{"other", std::nullopt};
        }
      } else if (!Root) {
        X.Locs.push_back(genLoc(R, false));
      }
      break;
    case 6:
      if (!Root && R.chance(35)) {
        X.Opt = !X.Opt;
      }
      break;
    case 7:
      if (X.Kind == 'n' && R.chance(50)) {
        switch (R.below(4)) {
        case 0: X.Hi += X.IsRange && X.Hi < INT64_MAX; break;
        case 1:
          if (!X.IsRange) {
            X.Vals.push_back(77);
          }
          break;
        case 2:
          if (!X.IsRange) {
            std::reverse(X.Vals.begin(), X.Vals.end());
          }
          break;
        default:
          X.IsRange = !X.IsRange;
          X.Lo = X.Hi = X.IsRange ? 3 : 0;
          X.Vals = X.IsRange ? std::vector<int64_t>{} : std::vector<int64_t>{3};
        }
      } else if (!Root && R.chance(10)) {
        X.Out += "other";
      }
      break;
    case 8:
      if (!Root && R.chance(35)) { // elsewhere
        auto P = R.pick(Ns);
        if (!B.isBelow(P, K)) {
          int Old = X.Group;
          X.Parent = P;
          X.Group = -1;
          if (Old >= 0 && B.members(Old).empty()) {
            B.eraseGroup(Old);
          }
        }
      }
      break;
    default:
      if (R.chance(35) && X.Group >= 0) {
        int Old = X.Group;
        X.Group = -1;
        if (B.members(Old).empty()) {
          B.eraseGroup(Old);
        }
      } else if (R.chance(25) && !Root && X.Kind == 'b') {
        X.Kind = 'n';
        X.IsRange = true;
        X.Lo = 0;
        X.Hi = 2;
      }
    }
  }
  return B;
}
void run(Ctx &C) {
  auto &R = C.R;
  GenOpt O;
  O.MinF = 0;
  O.MaxF = 8;
  O.Cons = 3;
  auto A = genModel(R, O);
  if (R.chance(25)) {
    weirdNames(R, A, true);
  }
  std::vector<std::string> Fresh;
  for (int I = 0; I < 6; ++I) {
    Fresh.push_back((I % 2 ? "new" : "Added") + std::to_string(I));
  }
  uniqueLocs(A);
  Model B = vary(R, A, Fresh);
  if (R.chance(5)) { // another root
    Model Z = genModel(R, O);
    B = Z;
  } else if (R.chance(25)) { // both have something of their own
    std::vector<std::string> F2{"mine1", "Mine2", "mine3"};
    A = vary(R, A, F2);
    A.Name = "first";
  }
  uniqueLocs(A);
  uniqueLocs(B);
  if (A.Root != B.Root && (A.F.count(B.Root) || B.F.count(A.Root))) {
    C.note("skipped_root_inside"); // left open
    return;
  }
  {
    // parents that differ only in case are taken for the same: left open
    std::set<std::string> Low, All;
    for (auto *M : {&A, &B}) {
      for (auto &[K, X] : M->F) {
        if (All.insert(K).second && !Low.insert(llvm::StringRef(K).lower()).second) {
          C.note("skipped_case");
          return;
        }
      }
    }
  }
  C.say("first:\n" + canon(A) + "\nsecond:\n" + canon(B));
  auto La = build(R, A);
  auto Lb = build(R, B);
  if (!C.check(La && Lb, "setup", "models cannot be built")) {
    return;
  }
  // as built: equal order of groups
  auto Sa = snap(*La), Sb = snap(*Lb);
  if (!sameModel(C, Sa, A, "setup", "first") || !sameModel(C, Sb, B, "setup", "second")) {
    return;
  }
  bool Strict = R.chance(50);
  judge(C, *La, *Lb, Sa, Sb, Strict, "merge");
  if (R.chance(40)) {
    judge(C, *La, *Lb, Sa, Sb, !Strict, "again");
  }
  if (R.chance(40)) {
    judge(C, *Lb, *La, Sb, Sa, R.chance(50), "the other way round");
  }
  if (R.chance(30)) { // with itself
    auto Cl = La->clone();
    judge(C, *La, R.chance(50) ? *La : *Cl, Sa, Sa, R.chance(50), "with itself");
  }
  if (R.chance(30)) { // the result is independent of its inputs
    std::string Why;
    auto Want = merged(Sa, Sb, false, Why);
    auto Got = vfe::mergeFeatureModels(*La, *Lb, false);
    if (Want && C.check(Got != nullptr, "refuses", "lenient merge refused")) {
      La.reset();
      Lb.reset();
      auto S = sound(C, *Got, "result without its inputs");
      C.check(text(S) == text(*Want), "result", "result without its inputs:\n" + diff(text(S), text(*Want)));
      // and merging one more time adds nothing
      auto L3 = build(R, B);
      judge(C, *Got, *L3, S, snap(*L3), false, "merged once more");
      C.note("repeated_merges");
    }
  }
  C.distinct(canon(A) + canon(B));
  C.sample(canon(A) + "\n--\n" + canon(B));
}
// each kind of conflict by itself
void probeConflicts(Ctx &C) {
  auto Base = [] {
    Model M;
    auto Add = [&](const char *N, const char *P, char K, int G = -1) {
      MFeat X;
      X.Name = N;
      X.Parent = P;
      X.Kind = K;
      X.Group = G;
      if (K == 'n') {
        X.Lo = 1;
        X.Hi = 5;
      }
      M.F[N] = X;
    };
    M.G.push_back({true, "A"});
    Add("root", "", 'r');
    Add("A", "root", 'b');
    Add("B", "A", 'b', 0);
    Add("D", "A", 'b', 0);
    Add("N", "root", 'n');
    Add("E", "root", 'b');
    MLoc L;
    L.Path = "a.cpp";
    L.S = {1, 2};
    L.E = {3, 4};
    M.F["E"].Locs = {L};
    return M;
  };
  struct Case {
    const char *What;
    bool Strict, Lenient; // merge?
    std::function<void(Model &)> Do;
  };
  std::vector<Case> Cs = {
      {"nothing", true, true, [](Model &) {}},
      {"optional", false, true, [](Model &M) { M.F["E"].Opt = true; }},
      {"optional member", false, true, [](Model &M) { M.F["B"].Opt = true; }},
      {"kind", false, true, [](Model &M) { M.F["E"].Kind = 'n'; }},
      {"parent", false, false, [](Model &M) { M.F["E"].Parent = "A"; }},
      {"parent of a number", false, false, [](Model &M) { M.F["N"].Parent = "A"; }},
      {"upper bound", false, true, [](Model &M) { M.F["N"].Hi = 6; }},
      {"lower bound", false, true, [](Model &M) { M.F["N"].Lo = 0; }},
      {"list for range", false, true, [](Model &M) {
         M.F["N"].IsRange = false;
         M.F["N"].Vals = {1, 5};
         M.F["N"].Lo = M.F["N"].Hi = 0;
       }},
      {"no group", false, true, [](Model &M) {
         M.F["B"].Group = M.F["D"].Group = -1;
         M.G.clear();
       }},
      {"group more", false, true, [](Model &M) {
         M.G.push_back({true, "root"});
         M.F["E"].Group = 1;
       }},
      {"output string", true, true, [](Model &M) { M.F["E"].Out = "-x"; }},
      {"location", true, true, [](Model &M) { M.F["E"].Locs[0].S = {7, 7}; }},
      {"location's category", true, true, [](Model &M) { M.F["E"].Locs[0].Iness = true; }},
      {"location's member", true, true, [](Model &M) { M.F["E"].Locs[0].Member = "C::m"; }},
      {"location's end", true, true, [](Model &M) { M.F["E"].Locs[0].E.reset(); }},
      {"location's path", true, true, [](Model &M) { M.F["E"].Locs[0].Path = "b.cpp"; }},
      {"another feature's location", true, true, [](Model &M) { M.F["B"].Locs = M.F["E"].Locs; }},
      {"less", true, true, [](Model &M) { M.F.erase("E"); }},
      {"new subtree", true, true, [](Model &M) {
         for (auto P : {"B", "X", "Y"}) {
           MFeat X;
           X.Name = P[0] == 'B' ? "X" : P[0] == 'X' ? "Y" : "Z";
           X.Parent = P;
           X.Opt = X.Name == "Y";
           X.Out = "-" + X.Name;
           X.Kind = X.Name == "Z" ? 'n' : 'b';
           X.Hi = X.Name == "Z" ? 9 : 0;
           M.F[X.Name] = X;
         }
       }},
      {"conflict below", false, false, [](Model &M) {
         MFeat X;
         X.Name = "X";
         X.Parent = "root";
         M.F["X"] = X;
         M.F["E"].Parent = "X";
       }},
      {"other root", false, false, [](Model &M) {
         auto X = M.F["root"];
         M.F.erase("root");
         X.Name = M.Root = "top";
         M.F["top"] = X;
         for (auto &[K, Y] : M.F) {
           Y.Parent = Y.Parent == "root" ? "top" : Y.Parent;
         }
       }},
  };
  for (auto &K : Cs) {
    for (bool Swap : {false, true}) {
      auto A = Base(), B = Base();
      B.Name = "second";
      K.Do(Swap ? A : B);
      auto La = buildTx(C.R, A), Lb = buildTx(C.R, B);
      auto Sa = snap(*La), Sb = snap(*Lb);
      for (bool Strict : {true, false}) {
        std::string Why;
        C.check(merged(Sa, Sb, Strict, Why).has_value() == (Strict ? K.Strict : K.Lenient), "setup", std::string("reference on ") + K.What);
        judge(C, *La, *Lb, Sa, Sb, Strict, K.What);
      }
    }
  }
}
} // namespace
int main(int argc, char **argv) { return harnessMain(argc, argv, run, {{"conflicts", probeConflicts}}); }
