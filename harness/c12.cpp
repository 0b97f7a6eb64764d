// C12: removing features removes exactly what was asked and nothing dangles.
#include "ops.h"
#include "solve.h"
#include "vara/Feature/FeatureModelParser.h"
#include "vara/Feature/FeatureModelWriter.h"
using namespace vf;

namespace {
// everything that walks the model
void use(Ctx &C, FM &Lib, const Model &Want, bool Solve) {
  {
    auto Cl = Lib.clone();
    if (C.check(Cl != nullptr, "clone", "model cannot be cloned")) {
      sameModel(C, sound(C, *Cl, "clone"), Want, "clone", "clone after removal");
      C.note("cloned");
    }
  }
  std::string Text;
  for (auto &&X : std::as_const(Lib).booleanConstraints()) {
    Text += X->constraint()->toString() + X->constraint()->toHTML();
  }
  for (auto &&X : std::as_const(Lib).nonBooleanConstraints()) {
    Text += X->constraint()->toString();
  }
  for (auto &&X : std::as_const(Lib).mixedConstraints()) {
    Text += X->constraint()->toString();
  }
  for (auto *F : std::as_const(Lib)) {
    Text += F->toString();
    for (auto *X : F->constraints()) {
      Text += X->getRoot()->toString();
    }
    for (auto *X : F->implications()) {
      Text += X->toString();
    }
    for (auto *X : F->excludes()) {
      Text += X->toString();
    }
  }
  C.note("printed_bytes", Text.size());
  auto W = vfe::FeatureModelXmlWriter(Lib).writeFeatureModel();
  if (W) {
    C.note("written");
    for (auto &[K, X] : Want.F) {
      if (isIdent(K) && X.Kind == 'b') {
        C.check(W->find("<name>" + K + "</name>") != std::string::npos, "write", K + " is not written");
      }
    }
  }
  if (Solve) {
    auto Sols = enumerate(Want, 20000);
    if (Sols) {
      auto Got = CF::getNConfigs(Lib, 4);
      if (C.check(static_cast<bool>(Got), "solve", "no configurations after removal")) {
        auto V = Got.extractValue();
        C.eq(V.size(), std::min<size_t>(4, Sols->size()), "solve", "configurations after removal");
        for (auto &X : V) {
          C.check(Sols->count(configText(*X)) > 0, "solve", "wrong configuration " + configText(*X));
        }
        C.note("solved");
      }
    }
  }
}

// features of S that go when S is removed
std::set<std::string> deletable(const Model &M, const std::set<std::string> &S, bool Rec) {
  std::set<std::string> Out;
  if (Rec) {
    for (auto &X : S) {
      if (M.F.count(X) && X != M.Root) {
        Out.insert(X);
      }
    }
    return Out;
  }
  std::function<bool(const std::string &)> Can = [&](const std::string &X) {
    if (!S.count(X) || X == M.Root) {
      return false;
    }
    for (auto &K : M.childrenOf(X)) {
      if (!Can(K)) {
        return false;
      }
    }
    return true;
  };
  for (auto &X : S) {
    if (M.F.count(X) && Can(X)) {
      Out.insert(X);
    }
  }
  return Out;
}

void run(Ctx &C) {
  auto &R = C.R;
  bool Solve = R.chance(6);
  GenOpt G;
  if (Solve) {
    G = solvable();
    G.MinF = 2;
  } else {
    G.MaxF = R.chance(15) ? 20 : 9;
    G.Groups = 2;
    G.Cons = 6;
  }
  auto M = genModel(R, G);
  if (R.chance(25)) {
    weirdNames(R, M, true);
  }
  auto Lib = build(R, M);
  if (!C.check(Lib != nullptr, "setup", "model cannot be built")) {
    return;
  }
  auto Cur = sound(C, *Lib, "start");
  if (!sameModel(C, Cur, M, "setup", "built model")) {
    return;
  }
  std::string Hist = canon(Cur);
  size_t Rounds = 1 + R.below(3);
  for (size_t Rd = 0; Rd < Rounds && !C.Failed; ++Rd) {
    C.say("model:\n" + canon(Cur));
    bool Rec = R.chance(50);
    Model Want = Cur;
    auto Var = [&](const std::string &N) -> FV {
      auto *F = Lib->getFeature(N);
      return F && R.chance(50) ? FV(F) : FV(N);
    };
    if (R.chance(45)) {
      auto N = R.chance(5) ? std::string("Missing") : R.pick(Cur.names());
      C.say("removeFeature " + N + (Rec ? " recursive" : ""));
      Hist += "remove " + N + (Rec ? " r" : "") + "\n";
      bool Ok = Cur.F.count(N) && N != Cur.Root && (Rec || Cur.childrenOf(N).empty());
      if (Ok) {
        eraseSubtree(Want, N);
      }
      int How = static_cast<int>(R.below(3));
      if (How == 0) {
        vfe::removeFeature(*Lib, Var(N), Rec);
      } else if (How == 1) {
        auto T = ModTx::openTransaction(*Lib);
        auto V = Var(N);
        T.removeFeature(V, Rec);
        C.check(static_cast<bool>(T.commit()) == Ok, "verdict", "removal of " + N + (Ok ? " fails" : " succeeds"));
      } else {
        auto T = CopyTx::openTransaction(*Lib);
        auto V = Var(N);
        T.removeFeature(V, Rec);
        auto Res = T.commit();
        if (!C.check(static_cast<bool>(Res), "verdict", "copy is not committed")) {
          return;
        }
        Lib = Res.extractValue();
      }
      C.note(Ok ? "removed_single" : "refused_single");
    } else {
      auto Ns = Cur.names();
      R.shuffle(Ns);
      std::vector<std::string> Set(Ns.begin(), Ns.begin() + static_cast<long>(R.below(Ns.size()) + 1));
      if (R.chance(15)) {
        Set.push_back("Missing");
        R.shuffle(Set);
      }
      std::vector<FV> Vs;
      std::string T;
      for (auto &N : Set) {
        Vs.push_back(Var(N));
        T += N + (std::holds_alternative<std::string>(Vs.back()) ? " " : "* ");
      }
      C.say("removeFeatures " + T + (Rec ? " recursive" : ""));
      Hist += "set " + T + (Rec ? " r" : "") + "\n";
      std::map<vfe::Feature *, std::string> NameOf;
      for (auto *F : std::as_const(*Lib).unorderedFeatures()) {
        NameOf[F] = F->getName().str();
      }
      std::set<std::string> S(Set.begin(), Set.end());
      auto Del = deletable(Cur, S, Rec);
      auto Rest = R.chance(50) ? vfe::removeFeatures(*Lib, Vs, Rec) : vfe::removeFeatures(*Lib, Vs.begin(), Vs.end(), Rec);
      std::multiset<std::string> Got, Exp;
      for (auto &V : Rest) {
        Got.insert(std::holds_alternative<std::string>(V) ? std::get<std::string>(V) : NameOf[std::get<vfe::Feature *>(V)]);
      }
      for (auto &X : Set) {
        if (!Del.count(X)) {
          Exp.insert(X);
        }
      }
      auto Join = [](auto &Ms) {
        std::string O;
        for (auto &X : Ms) {
          O += X + " ";
        }
        return O;
      };
      C.eq(Join(Got), Join(Exp), "rest", "features returned as not removed");
      for (auto &X : Del) {
        if (Want.F.count(X)) {
          eraseSubtree(Want, X);
        }
      }
      C.note("sets");
      C.note("removed_in_sets", Del.size());
      C.note("kept_in_sets", Exp.size());
    }
    auto After = sound(C, *Lib, "after removal");
    sameModel(C, After, Want, "effect", "after removal");
    Cur = After;
    if (R.chance(50) || Solve) {
      bool Empty = false;
      for (size_t I = 0; I < Cur.G.size(); ++I) {
        Empty = Empty || Cur.members(static_cast<int>(I)).empty();
      }
      // step functions are known to the generator only
      Model WithSteps = Cur;
      for (auto &[K, X] : WithSteps.F) {
        if (M.F.count(K)) {
          X.Step = M.F[K].Step;
        }
      }
      use(C, *Lib, WithSteps, Solve && !Empty);
    }
  }
  C.distinct(Hist);
  C.sample(Hist.substr(Hist.find("root ")));
}

// every subset of a fixed tree, both ways, in two orders
void probeSubsets(Ctx &C) {
  for (int Rec = 0; Rec < 2; ++Rec) {
    for (unsigned Mask = 0; Mask < 128; ++Mask) {
      Model M;
      auto Add = [&](const char *N, const char *P, char K = 'b') {
        MFeat X;
        X.Name = N;
        X.Parent = P;
        X.Kind = K;
        M.F[N] = X;
      };
      Add("root", "", 'r');
      Add("A", "root");
      Add("B", "A");
      Add("Cc", "A");
      Add("D", "B");
      Add("E", "root");
      Add("G", "E");
      M.G.push_back({true, "A"});
      M.F["B"].Group = M.F["Cc"].Group = 0;
      M.B.push_back({bin(Op::Imp, feat("D"), feat("G")), 0});
      M.B.push_back({bin(Op::Or, feat("A"), un(Op::Not, feat("E"))), 0});
      M.M.push_back({bin(Op::Ge, feat("B"), feat("Cc")), 2, true, false});
      auto L = buildTx(C.R, M);
      auto Ns = M.names();
      std::vector<FV> V;
      std::set<std::string> S;
      for (size_t I = 0; I < Ns.size(); ++I) {
        if (Mask & (1U << I)) {
          S.insert(Ns[I]);
          V.push_back(Ns[I]);
        }
      }
      if (Mask & 1) {
        std::reverse(V.begin(), V.end());
      }
      auto Rest = vfe::removeFeatures(*L, V, Rec == 1);
      auto Del = deletable(M, S, Rec == 1);
      C.eq(Rest.size(), S.size() - Del.size(), "rest", "rest of subset " + std::to_string(Mask));
      Model W = M;
      for (auto &X : Del) {
        if (W.F.count(X)) {
          eraseSubtree(W, X);
        }
      }
      sameModel(C, sound(C, *L, "subset"), W, "effect", "subset " + std::to_string(Mask));
      use(C, *L, W, false);
    }
  }
}
} // namespace
int main(int argc, char **argv) { return harnessMain(argc, argv, run, {{"all-subsets", probeSubsets}}); }
