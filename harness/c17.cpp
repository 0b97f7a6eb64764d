// C17: the solver and configuration-iterator protocol.
#include "solve.h"
#include "vara/Solver/Z3Solver.h"
using namespace vf;
using namespace vara::solver;

namespace {
const char *errName(SolverErrorCode E) {
  switch (E) {
  case NOT_IMPLEMENTED: return "NOT_IMPLEMENTED";
  case NOT_SUPPORTED: return "NOT_SUPPORTED";
  case UNSAT: return "UNSAT";
  case ALREADY_PRESENT: return "ALREADY_PRESENT";
  case NOT_ALL_CONSTRAINTS_PROCESSED: return "NOT_ALL_CONSTRAINTS_PROCESSED";
  case PARENT_NOT_PRESENT: return "PARENT_NOT_PRESENT";
  case ILLEGAL_STATE: return "ILLEGAL_STATE";
  }
  return "?";
}
template <class T> std::string verdict(T &&R) { return R ? "ok" : errName(R.getError()); }

// what a solver must know after the calls so far
struct Ref {
  std::map<std::string, std::vector<int64_t>> Dom; // option -> values, empty: boolean
  std::set<std::string> Num;
  std::vector<std::function<bool(const Env &)>> Cons;
  bool Began = false;
  std::set<std::string> Left;          // not yet yielded
  std::map<std::string, Env> ByText;
  std::string Cur;

  std::optional<std::map<std::string, Env>> all(size_t Max) const {
    std::map<std::string, Env> Out;
    std::vector<std::string> Names;
    std::vector<std::vector<int64_t>> D;
    size_t N = 1;
    for (auto &[K, V] : Dom) {
      Names.push_back(K);
      auto W = V;
      std::sort(W.begin(), W.end());
      W.erase(std::unique(W.begin(), W.end()), W.end());
      D.push_back(Num.count(K) ? W : std::vector<int64_t>{0, 1});
      N *= D.back().size();
      if (N > Max) {
        return std::nullopt;
      }
    }
    if (N == 0) {
      return Out;
    }
    for (size_t I = 0; I < N; ++I) {
      size_t X = I;
      Env En;
      std::string T;
      for (size_t K = 0; K < Names.size(); ++K) {
        auto V = D[K][X % D[K].size()];
        X /= D[K].size();
        En[Names[K]] = V;
        T += Names[K] + "=" + (Num.count(Names[K]) ? std::to_string(V) : V ? "true" : "false") + " ";
      }
      if (std::all_of(Cons.begin(), Cons.end(), [&](auto &F) { return F(En); })) {
        Out[T] = En;
      }
    }
    return Out;
  }
};

bool usable(const Ref &S, const Model &M, const E &X) {
  std::set<std::string> Fs;
  feats(X, Fs);
  for (auto &F : Fs) {
    if (!S.Dom.count(F) || (S.Num.count(F) != 0) != (M.F.at(F).Kind == 'n')) {
      return false;
    }
  }
  return true;
}

void expectNext(Ctx &C, Ref &S, Solver &Sv, bool Current) {
  auto R = Current ? Sv.getCurrentConfiguration() : Sv.getNextConfiguration();
  if (Current && S.Began && !S.Cur.empty()) {
    C.note("current_again");
    if (C.check(static_cast<bool>(R), "stable", "current configuration fails")) {
      auto Cf = R.extractValue();
      C.eq(configText(*Cf), S.Cur, "stable", "current configuration");
    }
    return;
  }
  if (S.Left.empty()) {
    C.note("past_the_end");
    C.eq(verdict(R), std::string("UNSAT"), "end", "request past the last configuration");
    return;
  }
  if (!C.check(static_cast<bool>(R), "missing", "no configuration although " + *S.Left.begin() + " is left")) {
    return;
  }
  C.note("yielded");
  auto Cf = R.extractValue();
  auto T = configText(*Cf);
  C.check(S.Left.erase(T) == 1, "wrong", "yielded although invalid or already yielded: " + T);
  S.Began = true;
  S.Cur = T;
}

void history(Ctx &C) {
  auto &R = C.R;
  GenOpt O = solvable();
  O.MinF = 1;
  O.MaxF = 5;
  auto M = genModel(R, O);
  auto L = build(R, M);
  if (!C.check(L != nullptr, "setup", "not built")) {
    return;
  }
  std::vector<MCons> Pool;
  for (auto *V : {&M.B, &M.N, &M.M}) {
    Pool.insert(Pool.end(), V->begin(), V->end());
  }
  std::vector<std::string> Names;
  for (auto &[K, X] : M.F) {
    Names.push_back(K);
  }
  std::vector<std::string> Order; // mostly parents first
  for (auto *F : std::as_const(*L).features()) {
    Order.push_back(F->getName().str());
  }
  if (R.chance(25)) {
    R.shuffle(Order);
  }
  Ref S;
  std::unique_ptr<Solver> Sv;
  if (R.chance(50)) {
    Sv = Z3Solver::create();
  } else {
    Sv = SolverFactory::initializeSolver(SolverType::Z3);
    S.Dom["root"] = {};
    S.Cons.push_back([](const Env &En) { return En.at("root") != 0; });
  }
  std::string Log;
  auto Say = [&](const std::string &T) {
    C.say(T);
    Log += T + ";";
  };
  auto Limit = [&]() {
    size_t N = 1;
    for (auto &[K, V] : S.Dom) {
      N *= S.Num.count(K) ? std::max<size_t>(1, V.size()) : 2;
    }
    return N;
  };
  size_t At = 0, Steps = 4 + R.below(24);
  for (size_t I = 0; I < Steps; ++I) {
    switch (R.below(S.Began ? 9 : 19)) {
    case 0: { // adding what is known
      auto N = R.pick(Names);
      if (!S.Dom.count(N)) {
        break;
      }
      auto *F = L->getFeature(N);
      Say("again " + N);
      switch (R.below(3)) {
      case 0: {
        auto *P = F->getParentFeature();
        bool Orphan = P && !S.Dom.count(P->getName().str());
        C.eq(verdict(Sv->addFeature(*F, R.chance(50))), std::string(Orphan ? "PARENT_NOT_PRESENT" : "ALREADY_PRESENT"),
             "again", "adding a feature twice");
        break;
      }
      case 1: C.eq(verdict(Sv->addFeature(N)), std::string("ALREADY_PRESENT"), "again", "adding a name twice"); break;
      default:
        C.eq(verdict(Sv->addFeature(N, std::vector<int64_t>{1, 2, 777})), std::string("ALREADY_PRESENT"), "again",
             "adding values twice");
      }
      C.note("added_twice");
      break;
    }
    case 1: { // removal
      auto N = R.pick(Names);
      Say("remove " + N);
      C.eq(verdict(Sv->removeFeature(*L->getFeature(N))), std::string("NOT_SUPPORTED"), "remove", "removing");
      break;
    }
    case 2: { // constraint
      if (Pool.empty()) {
        break;
      }
      auto X = R.pick(Pool);
      if (!usable(S, M, X.X)) {
        break;
      }
      Say("constraint " + sexp(X.X));
      C.note("constraints");
      std::string V;
      const vfe::Constraint *Found = nullptr;
      auto Find = [&](auto &&Range) {
        for (auto &&B : Range) {
          if (sexp(fromLib(B->constraint())) == sexp(X.X)) {
            Found = B->constraint();
          }
        }
      };
      const FM &K = *L;
      if (X.Kind == 0) {
        Find(K.booleanConstraints());
      } else if (X.Kind == 1) {
        Find(K.nonBooleanConstraints());
      } else {
        Find(K.mixedConstraints());
      }
      if (!C.check(Found != nullptr, "setup", "constraint not in the model")) {
        return;
      }
      auto &Cn = *const_cast<vfe::Constraint *>(Found);
      if (X.Kind == 2) {
        V = verdict(Sv->addMixedConstraint(
            Cn, X.Neg ? FM::MixedConstraint::ExprKind::NEG : FM::MixedConstraint::ExprKind::POS,
            X.All ? FM::MixedConstraint::Req::ALL : FM::MixedConstraint::Req::NONE));
      } else {
        V = verdict(Sv->addConstraint(Cn));
      }
      C.eq(V, std::string("ok"), "constraint", "adding a constraint");
      auto Holds = [M, X](const Env &En) { return consHolds(M, X, En); };
      S.Cons.push_back(Holds);
      for (auto It = S.Left.begin(); It != S.Left.end();) {
        It = S.Began && !Holds(S.ByText.at(*It)) ? S.Left.erase(It) : std::next(It);
      }
      break;
    }
    case 3: { // validity
      Say("valid?");
      auto V = Sv->hasValidConfigurations();
      if (S.Began) {
        C.note("validity_too_late");
        C.eq(verdict(V), std::string("ILLEGAL_STATE"), "late", "validity query after enumeration began");
      } else if (auto A = S.all(5000)) {
        C.note("validity");
        if (C.check(static_cast<bool>(V), "valid", "validity query fails")) {
          C.eq(V.extractValue(), !A->empty(), "valid", "validity");
        }
      }
      break;
    }
    case 4:
    case 5:
    case 6:
      if (!S.Began) {
        auto A = Limit() <= 300 ? S.all(2000) : std::nullopt;
        if (!A || S.Dom.empty()) {
          break;
        }
        if (R.chance(85) && I + 4 < Steps) {
          break; // rather later
        }
        S.ByText = *A;
        for (auto &[T, En] : *A) {
          S.Left.insert(T);
        }
        if (A->empty()) {
          C.note("unsatisfiable");
        }
      }
      Say(S.Began ? "next" : "first");
      expectNext(C, S, *Sv, !S.Began && R.chance(50));
      break;
    case 7:
    case 8:
      if (S.Began) {
        Say("current");
        expectNext(C, S, *Sv, true);
      }
      break;
    case 9: { // a name of no feature, or a boolean feature's name alone
      std::string N = R.chance(60) ? "free" + std::to_string(R.below(3)) : R.pick(Names);
      if ((M.F.count(N) && M.F[N].Kind == 'n') || Limit() > 100) {
        break;
      }
      Say("name " + N);
      bool Known = S.Dom.count(N) != 0;
      C.eq(verdict(Sv->addFeature(N)), std::string(Known ? "ALREADY_PRESENT" : "ok"), "name", "adding a name");
      S.Dom.insert({N, {}});
      C.note("names");
      break;
    }
    case 10: { // a value domain
      std::string N = R.chance(60) ? "num" + std::to_string(R.below(3)) : R.pick(Names);
      if ((M.F.count(N) && M.F[N].Kind != 'n') || Limit() > 100) {
        break;
      }
      std::vector<int64_t> V;
      for (size_t K = R.chance(5) ? 0 : 1 + R.below(3); K; --K) {
        V.push_back(R.chance(10) ? static_cast<int64_t>(R.next()) : R.range(-3, 6));
      }
      Say("values " + N);
      bool Known = S.Dom.count(N) != 0;
      C.eq(verdict(Sv->addFeature(N, V)), std::string(Known ? "ALREADY_PRESENT" : "ok"), "values", "adding values");
      if (!Known) {
        S.Dom[N] = V;
        S.Num.insert(N);
      }
      C.note("value_domains");
      break;
    }
    case 11: { // a group whose members are known
      if (M.G.empty()) {
        break;
      }
      size_t G = R.below(M.G.size());
      auto Ms = M.members(static_cast<int>(G));
      auto P = optionAbove(M, M.G[G].Parent);
      bool Ok = S.Dom.count(P) && !S.Num.count(P);
      for (auto &X : Ms) {
        Ok = Ok && S.Dom.count(X) && !S.Num.count(X);
      }
      if (!Ok) {
        break;
      }
      for (auto &Rel : std::as_const(*L).relationships()) {
        std::set<std::string> Got;
        for (auto *Ch : Rel->children()) {
          Got.insert(llvm::cast<vfe::Feature>(Ch)->getName().str());
        }
        if (Got != std::set<std::string>(Ms.begin(), Ms.end())) {
          continue;
        }
        Say("group of " + P);
        C.note("groups");
        C.eq(verdict(Sv->addRelationship(*Rel)), std::string("ok"), "group", "adding a group");
        bool Alt = M.G[G].Alt;
        S.Cons.push_back([P, Ms, Alt](const Env &En) {
          int N = 0;
          for (auto &X : Ms) {
            N += En.at(X) != 0;
          }
          return !En.at(P) || (N > 0 && (!Alt || N == 1));
        });
      }
      break;
    }
    default: { // a feature of the model
      std::string N = At < Order.size() && R.chance(85) ? Order[At++] : R.pick(Names);
      if (Limit() > 100) {
        break;
      }
      auto &X = M.F.at(N);
      bool InGroup = X.Group >= 0 ? R.chance(90) : R.chance(10);
      bool Known = S.Dom.count(N) != 0;
      bool Orphan = X.Kind != 'r' && !S.Dom.count(X.Parent);
      if (X.Kind == 'b' && !Orphan && !Known) {
        auto P = optionAbove(M, X.Parent);
        if (!S.Dom.count(P) || S.Num.count(P)) {
          break;
        }
      }
      Say("feature " + N + (InGroup ? " in group" : ""));
      C.eq(verdict(Sv->addFeature(*L->getFeature(N), InGroup)),
           std::string(Orphan ? "PARENT_NOT_PRESENT" : Known ? "ALREADY_PRESENT" : "ok"), "feature", "adding a feature");
      C.note(Orphan ? "orphans" : Known ? "added_twice" : "features");
      if (Orphan || Known) {
        break;
      }
      if (X.Kind == 'n') {
        S.Dom[N] = domain(X);
        S.Num.insert(N);
      } else {
        S.Dom[N] = {};
        if (X.Kind == 'r') {
          S.Cons.push_back([N](const Env &En) { return En.at(N) != 0; });
        } else {
          auto P = optionAbove(M, X.Parent);
          bool Must = !InGroup && !X.Opt;
          S.Cons.push_back([N, P, Must](const Env &En) {
            return (!En.at(N) || En.at(P)) && (!Must || !En.at(P) || En.at(N));
          });
        }
      }
    }
    }
  }
  // to the end and beyond
  if (S.Began) {
    size_t N = S.Left.size();
    if (N <= 120) {
      for (size_t I = 0; I < N; ++I) {
        expectNext(C, S, *Sv, false);
        if (R.chance(10)) {
          expectNext(C, S, *Sv, true);
        }
      }
      for (int I = 0; I < 3; ++I) {
        expectNext(C, S, *Sv, false);
        C.eq(verdict(Sv->hasValidConfigurations()), std::string("ILLEGAL_STATE"), "late", "validity query at the end");
      }
    }
  }
  C.distinct(canon(M) + Log);
  C.sample(Log);
}

void iterators(Ctx &C) {
  auto &R = C.R;
  GenOpt O = solvable();
  O.MaxF = 5;
  auto M = genModel(R, O);
  auto Want = enumerate(M, 2000);
  if (!Want || Want->size() > 60) {
    return;
  }
  auto L = build(R, M);
  if (!C.check(L != nullptr, "setup", "not built")) {
    return;
  }
  C.say(canon(M));
  for (unsigned N : std::vector<unsigned>{0, 1, static_cast<unsigned>(R.below(Want->size() + 3)),
                                          static_cast<unsigned>(Want->size()), static_cast<unsigned>(Want->size() + 1),
                                          UINT_MAX}) {
    auto A = CF::getNConfigs(*L, N);
    C.note("requests_for_n");
    if (!C.check(static_cast<bool>(A), "n", "asking for " + std::to_string(N) + " fails")) {
      continue;
    }
    auto V = A.extractValue();
    C.eq(V.size(), std::min<size_t>(N, Want->size()), "n", "asked for " + std::to_string(N));
    std::set<std::string> Got;
    for (auto &X : V) {
      if (!C.check(X != nullptr, "n", "empty entry")) {
        continue;
      }
      auto T = configText(*X);
      C.check(Want->count(T) != 0, "n", "invalid: " + T);
      C.check(Got.insert(T).second, "n", "twice: " + T);
    }
  }
  auto It = CF::getConfigIterator(*L);
  std::set<std::string> Got;
  size_t Turns = 0;
  for (auto I = It.begin(), End = It.end(); I != End; ++I) {
    if (++Turns > Want->size() + 3) {
      C.fail("iterator", "iteration does not end");
      return;
    }
    C.check(!(I == It.end()), "iterator", "neither equal nor different");
    std::string First;
    for (size_t K = 0, Reads = 1 + R.below(3); K < Reads; ++K) {
      auto X = *I;
      C.note("dereferenced");
      if (Want->empty()) {
        C.eq(verdict(X), std::string("UNSAT"), "iterator", "iterating an unsatisfiable model");
        continue;
      }
      if (!C.check(static_cast<bool>(X), "iterator", "no configuration")) {
        continue;
      }
      auto Cf = X.extractValue();
      auto T = configText(*Cf);
      if (K == 0) {
        First = T;
        C.check(Want->count(T) != 0, "iterator", "invalid: " + T);
        C.check(Got.insert(T).second, "iterator", "twice: " + T);
      } else {
        C.eq(T, First, "iterator", "the configuration at one place");
      }
      auto Copy = I;
      C.check(Copy == I, "iterator", "a copy differs");
    }
  }
  C.eq(Got.size(), Want->size(), "iterator", "configurations seen");
  C.distinct(canon(M));
}

void run(Ctx &C) { C.R.chance(65) ? history(C) : iterators(C); }

void probeEmpty(Ctx &C) {
  auto S = Z3Solver::create();
  C.eq(verdict(S->addFeature("A")), std::string("ok"), "name", "first name");
  C.eq(verdict(S->addFeature("A")), std::string("ALREADY_PRESENT"), "name", "second");
  C.eq(verdict(S->addFeature("B", {1, 2})), std::string("ok"), "values", "values");
  std::set<std::string> Got;
  for (int I = 0; I < 4; ++I) {
    auto R = S->getNextConfiguration();
    if (C.check(static_cast<bool>(R), "missing", "configuration")) {
      auto Cf = R.extractValue();
      Got.insert(configText(*Cf));
    }
  }
  C.eq(Got.size(), size_t(4), "missing", "configurations of two options");
  for (int I = 0; I < 3; ++I) {
    C.eq(verdict(S->getNextConfiguration()), std::string("UNSAT"), "end", "past the end");
    auto R = S->getCurrentConfiguration();
    C.check(static_cast<bool>(R), "stable", "the last one stays current");
  }
}
void probeParentless(Ctx &C) {
  vfe::BinaryFeature A("A");
  vfe::NumericFeature N("N", std::vector<int64_t>{3});
  auto S = Z3Solver::create();
  C.eq(verdict(S->addFeature(A)), std::string("ok"), "feature", "feature without parent");
  C.eq(verdict(S->addFeature(N)), std::string("ok"), "feature", "numeric feature without parent");
  std::set<std::string> Got;
  for (int I = 0; I < 2; ++I) {
    auto R = S->getNextConfiguration();
    if (C.check(static_cast<bool>(R), "missing", "configuration")) {
      auto Cf = R.extractValue();
      Got.insert(configText(*Cf));
    }
  }
  C.eq(Got.size(), size_t(2), "missing", "configurations");
  C.eq(verdict(S->getNextConfiguration()), std::string("UNSAT"), "end", "past the end");
}
} // namespace
int main(int argc, char **argv) {
  return harnessMain(argc, argv, run, {{"empty", probeEmpty}, {"parentless", probeParentless}});
}
