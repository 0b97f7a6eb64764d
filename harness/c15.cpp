// C15: enumerating configurations yields exactly the valid ones.
#include "solve.h"
#include "vara/Feature/FeatureModelParser.h"
#include "vara/Feature/FeatureModelWriter.h"
using namespace vf;

namespace {
// number of valid selections of the tree without constraints (closed form)
unsigned __int128 count(const Model &M) {
  std::map<std::string, std::vector<std::string>> Kids;
  for (auto &[K, X] : M.F) {
    if (X.Kind != 'r') {
      Kids[optionAbove(M, X.Parent)].push_back(K);
    }
  }
  unsigned __int128 Nums = 1;
  for (auto &[K, X] : M.F) {
    if (X.Kind == 'n') {
      Nums *= domain(X).size();
    }
  }
  std::function<unsigned __int128(const std::string &)> Below = [&](const std::string &P) {
    unsigned __int128 N = 1;
    std::map<int, std::vector<unsigned __int128>> G;
    for (auto &C : Kids[P]) {
      auto &X = M.F.at(C);
      if (X.Kind == 'n') {
        continue;
      }
      auto B = Below(C);
      if (X.Group >= 0) {
        G[X.Group].push_back(B);
      } else {
        N *= B + (X.Opt ? 1 : 0);
      }
    }
    for (auto &[I, V] : G) {
      unsigned __int128 Alt = 0, Or = 1;
      for (auto B : V) {
        Alt += B;
        Or *= B + 1;
      }
      N *= M.G[static_cast<size_t>(I)].Alt ? Alt : Or - 1;
    }
    return N;
  };
  return Below(M.Root) * Nums;
}

// moves some features below numeric ones
void belowNumeric(Rng &R, Model &M) {
  std::vector<std::string> Nums, Free;
  for (auto &[K, X] : M.F) {
    if (X.Kind == 'n') {
      Nums.push_back(K);
    } else if (X.Kind == 'b' && X.Group < 0) {
      Free.push_back(K);
    }
  }
  if (Nums.empty()) {
    return;
  }
  for (auto &K : Free) {
    auto P = R.pick(Nums);
    if (R.chance(40) && !M.isBelow(P, K)) {
      M.F[K].Parent = P;
    }
  }
}

// runs all entry points and compares them with the expected set
void compare(Ctx &C, const Model &M, FM &L, const std::set<std::string> &Want) {
  auto Before = canon(snap(L));
  auto A = CF::getAllConfigs(L);
  auto N = CF::getNumConfigs(L);
  bool Valid = CF::isValid(L);
  C.check(canon(snap(L)) == Before, "unchanged", "solving changed the model");
  C.eq(Valid, !Want.empty(), "valid", "validity");
  if (Want.empty()) {
    C.note("unsatisfiable");
    C.check(!A && A.getError() == vara::solver::UNSAT, "unsat", "all configurations of an unsatisfiable model");
    C.check(!N && N.getError() == vara::solver::UNSAT, "unsat", "number for an unsatisfiable model");
    return;
  }
  C.note("satisfiable");
  if (!C.check(static_cast<bool>(A), "error", "enumeration fails")) {
    return;
  }
  auto V = A.extractValue();
  std::set<std::string> Got;
  for (auto &Cf : V) {
    C.note("configurations");
    auto T = configText(*Cf);
    C.check(Got.insert(T).second, "twice", "yielded twice: " + T);
    C.check(Want.count(T) != 0, "wrong", "not a valid configuration: " + T);
  }
  for (auto &T : Want) {
    C.check(Got.count(T) != 0, "missing", "missing: " + T);
  }
  C.check(static_cast<bool>(N), "number", "counting fails");
  if (N) {
    C.eq(N.extractValue(), static_cast<uint64_t>(Want.size()), "number", "number of configurations");
  }
  (void)M;
}

void big(Ctx &C) {
  // larger trees: counted in closed form, each configuration judged on its own
  auto &R = C.R;
  GenOpt O = solvable();
  O.MinF = 6;
  O.MaxF = 16;
  O.Cons = 0;
  auto M = genModel(R, O);
  if (R.chance(20)) {
    belowNumeric(R, M);
  }
  auto N = count(M);
  if (N > 250) {
    C.note("big_skipped");
    return;
  }
  auto L = build(R, M);
  if (!C.check(L != nullptr, "setup", "model cannot be built")) {
    return;
  }
  C.say(canon(M));
  C.note("big");
  auto A = CF::getAllConfigs(*L);
  if (!C.check(static_cast<bool>(A) == (N != 0), "error", "enumeration fails or does not")) {
    return;
  }
  if (N == 0) {
    return;
  }
  auto V = A.extractValue();
  C.eq(static_cast<uint64_t>(V.size()), static_cast<uint64_t>(N), "number", "number of configurations");
  std::set<std::string> Got;
  for (auto &Cf : V) {
    C.note("configurations");
    auto En = configEnv(M, *Cf);
    auto T = configText(*Cf);
    C.check(Got.insert(T).second, "twice", "yielded twice: " + T);
    if (C.check(En.has_value(), "wrong", "features or values are wrong: " + T)) {
      C.check(invalid(M, *En).empty(), "wrong", "violates " + invalid(M, *En) + ": " + T);
    }
  }
  C.distinct(canon(M));
}

void run(Ctx &C) {
  auto &R = C.R;
  if (R.chance(15)) {
    big(C);
    return;
  }
  GenOpt O = solvable();
  if (R.chance(20)) {
    O.MaxF = 9;
  }
  if (R.chance(30)) {
    O.XmlRoot = true;
    O.Textual = true;
    O.Groups = 0;
  }
  auto M = genModel(R, O);
  if (O.XmlRoot && R.chance(60)) {
    addExclusions(R, M, 60, 20);
    // only options can exclude one another
    std::vector<MCons> B;
    for (auto &X : M.B) {
      if (!simplePair(X) || (M.F.at(X.X->L->Name).Kind != 'n' && M.F.at(X.X->R->Name).Kind != 'n')) {
        B.push_back(X);
      }
    }
    M.B = B;
  }
  std::unique_ptr<FM> L;
  if (R.chance(15)) {
    belowNumeric(R, M);
    C.note("below_numeric");
  }
  if (O.XmlRoot) {
    M = xmlMeaning(M);
  }
  auto Want = enumerate(M, 4096);
  if (!Want || Want->size() > 200) {
    C.note("too_many");
    return;
  }
  L = build(R, M);
  if (!C.check(L != nullptr, "setup", "model cannot be built")) {
    return;
  }
  if (O.XmlRoot) {
    // through a document
    auto T = vfe::FeatureModelXmlWriter(*L).writeFeatureModel();
    L = T ? vfe::FeatureModelXmlParser(*T).buildFeatureModel() : nullptr;
    if (!C.check(L != nullptr, "setup", "model cannot be written and loaded")) {
      return;
    }
    C.note("from_document");
  } else if (R.chance(15)) {
    L = L->clone();
  }
  C.say(canon(M));
  compare(C, M, *L, *Want);
  C.distinct(canon(M));
  C.sample(canon(M));
}

Model base(const std::vector<std::string> &Bools, bool Opt) {
  Model M;
  M.Name = "m";
  M.Path = "p";
  MFeat X;
  X.Name = "root";
  X.Kind = 'r';
  M.F["root"] = X;
  for (auto &B : Bools) {
    X.Name = B;
    X.Kind = 'b';
    X.Opt = Opt;
    X.Parent = "root";
    M.F[B] = X;
  }
  return M;
}
void withNumeric(Ctx &C, MFeat N, const std::string &Name) {
  auto M = base({"A"}, true);
  N.Name = Name;
  N.Kind = 'n';
  N.Parent = "root";
  M.F[Name] = N;
  auto L = build(C.R, M);
  auto Want = enumerate(M, 100000);
  if (C.check(L && Want, "setup", "not built")) {
    compare(C, M, *L, *Want);
  }
}
void probeRanges(Ctx &C) {
  auto Range = [&](int64_t Lo, int64_t Hi, std::optional<MStep> S) {
    MFeat X;
    X.IsRange = true;
    X.Lo = Lo;
    X.Hi = Hi;
    X.Step = S;
    withNumeric(C, X, "N");
  };
  auto Step = [](bool Left, char Op, double V) {
    MStep S;
    S.VarLeft = Left;
    S.Op = Op;
    S.Num = std::to_string(static_cast<int>(V));
    return S;
  };
  Range(0, 5, std::nullopt);
  Range(-3, 3, std::nullopt);
  Range(7, 7, std::nullopt);
  Range(1, 64, Step(true, '*', 2));
  Range(2, 300, Step(true, '^', 2));
  Range(0, 20, Step(false, '+', 5));
  Range(0, 10, Step(true, '*', 2));   // stands still
  Range(1, 10, Step(true, '*', 1));   // stands still
  Range(5, 10, Step(true, '+', -1));  // runs away
  Range(INT64_MAX - 3, INT64_MAX, std::nullopt);
  Range(INT64_MIN, INT64_MIN + 3, std::nullopt);
  Range((INT64_C(1) << 53) - 2, (INT64_C(1) << 53) + 5, std::nullopt);
  Range(INT64_MAX - 20, INT64_MAX, Step(true, '*', 2));
}
void probeLists(Ctx &C) {
  for (auto V : std::vector<std::vector<int64_t>>{{1, 2, 3}, {3, 1, 2}, {5}, {-1, 0, 1}, {2, 2, 3}, {INT64_MAX, INT64_MIN, 0}}) {
    MFeat X;
    X.IsRange = false;
    X.Vals = V;
    withNumeric(C, X, "N");
  }
}
void probeUnsat(Ctx &C) {
  auto M = base({"A", "B"}, false);
  M.B.push_back({bin(Op::Excl, feat("A"), feat("B")), 0});
  auto L = build(C.R, M);
  compare(C, M, *L, {});
  auto It = CF::getConfigIterator(*L);
  size_t N = 0;
  for (auto R : It) {
    C.check(!R, "unsat", "a configuration of an unsatisfiable model");
    C.check(++N < 3, "unsat", "iteration does not end");
    if (N > 3) {
      break;
    }
  }
  auto Root = base({}, false);
  auto L2 = build(C.R, Root);
  compare(C, Root, *L2, {"root=true "});
}
void probeBelowNumeric(Ctx &C) {
  for (unsigned K = 0; K < 8; ++K) {
    auto M = base({"A", "B", "C"}, K & 1);
    M.F["N"] = M.F["A"];
    M.F["N"].Name = "N";
    M.F["N"].Kind = 'n';
    M.F["N"].Opt = false;
    M.F["N"].IsRange = false;
    M.F["N"].Vals = {1, 2};
    M.F["N"].Parent = "A";
    M.F["B"].Parent = M.F["C"].Parent = "N";
    if (K & 6) {
      M.G.push_back({(K & 2) != 0, "N"});
      M.F["B"].Group = M.F["C"].Group = 0;
      M.F["B"].Opt = M.F["C"].Opt = false;
    }
    auto L = build(C.R, M);
    if (C.check(L != nullptr, "setup", "not built")) {
      compare(C, M, *L, *enumerate(M, 64));
    }
  }
}
// every tree of three binary features: all parents, optionalities and groups
void probeSmallTrees(Ctx &C) {
  for (unsigned Shape = 0; Shape < 6; ++Shape) {
    for (unsigned Opt = 0; Opt < 8; ++Opt) {
      for (unsigned G = 0; G < 7; ++G) {
        auto M = base({"A", "B", "C"}, false);
        M.F["A"].Opt = Opt & 1;
        M.F["B"].Opt = Opt & 2;
        M.F["C"].Opt = Opt & 4;
        static const char *PB[] = {"root", "A", "A", "root", "root", "C"};
        static const char *PC[] = {"root", "root", "A", "A", "B", "root"};
        M.F["B"].Parent = PB[Shape];
        M.F["C"].Parent = PC[Shape];
        if (G) {
          // group of every child of one feature
          static const char *GP[] = {"root", "A", "B"};
          std::string P = GP[(G - 1) / 2];
          std::vector<std::string> Ms;
          for (auto &[K, X] : M.F) {
            if (X.Kind == 'b' && X.Parent == P) {
              Ms.push_back(K);
            }
          }
          if (Ms.empty()) {
            continue;
          }
          M.G.push_back({G % 2 == 0, P});
          for (auto &K : Ms) {
            M.F[K].Group = 0;
          }
        }
        auto L = build(C.R, M);
        auto Want = enumerate(M, 64);
        if (C.check(L != nullptr, "setup", "not built")) {
          compare(C, M, *L, *Want);
        }
      }
    }
  }
}
// two groups below one feature
void probeTwoGroups(Ctx &C) {
  for (unsigned K = 0; K < 4; ++K) {
    auto M = base({"A", "B", "C", "D"}, false);
    M.G.push_back({(K & 1) != 0, "root"});
    M.G.push_back({(K & 2) != 0, "root"});
    M.F["A"].Group = M.F["B"].Group = 0;
    M.F["C"].Group = M.F["D"].Group = 1;
    auto L = build(C.R, M);
    if (C.check(L != nullptr, "setup", "not built")) {
      compare(C, M, *L, *enumerate(M, 64));
    }
  }
}
} // namespace
int main(int argc, char **argv) {
  return harnessMain(argc, argv, run,
                     {{"ranges", probeRanges},
                      {"lists", probeLists},
                      {"below-numeric", probeBelowNumeric},
                      {"unsatisfiable", probeUnsat},
                      {"small-trees", probeSmallTrees},
                      {"two-groups", probeTwoGroups}});
}
