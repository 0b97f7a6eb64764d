// C11: copy transactions never touch the original and deliver the edited copy.
#include "ops.h"
using namespace vf;

namespace {
void run(Ctx &C) {
  auto &R = C.R;
  GenOpt G;
  G.MaxF = 8;
  G.Groups = R.chance(70) ? 2 : 0;
  G.Cons = 4;
  auto M = genModel(R, G);
  uniqueLocs(M);
  if (R.chance(25)) {
    weirdNames(R, M, true);
  }
  auto Lib = build(R, M);
  if (!C.check(Lib != nullptr, "setup", "model cannot be built")) {
    return;
  }
  auto Cur = sound(C, *Lib, "start");
  if (!sameModel(C, Cur, M, "setup", "built model")) {
    return;
  }
  auto Before = canon(Cur, {false});
  C.say("model:\n" + Before);
  std::string Hist = Before;
  Handles H(*Lib, Cur);
  bool Bad = R.chance(50);
  OpGen Gen(R, Cur, Bad, true);
  std::vector<EditOp> Ops;
  bool AllOk = true;
  std::unique_ptr<FM> New;
  int Ending = static_cast<int>(R.below(10)); // 0 abort, 1 original destroyed before commit, else commit
  {
    auto T = CopyTx::openTransaction(*Lib);
    size_t N = R.below(R.chance(20) ? 16 : 7);
    for (size_t I = 0; I < N; ++I) {
      EditOp O;
      auto E = Gen.next(O);
      // pointers into the original are always usable here: they are translated
      auto OrigHas = [&](const std::string &X) { return Cur.F.count(X) > 0; };
      if (O.Kind != EditOp::AddF && OrigHas(O.A)) {
        O.PtrA = R.chance(50);
      }
      if (O.Kind != EditOp::AddF && OrigHas(O.B)) {
        O.PtrB = R.chance(50);
      }
      C.say(O.text() + (E.empty() ? "" : "   -> " + E));
      Hist += O.text() + "\n";
      AllOk = AllOk && E.empty();
      Ops.push_back(O);
      auto Res = stage(T, O, H);
      C.note(E.empty() ? "operations" : "refused_operations");
      if (Res) {
        C.note("immediate_results");
        C.check(Res->empty() == E.empty(), "immediate-result",
                O.text() + ": reported <" + *Res + ">, expected <" + E + ">");
      }
      if (R.chance(20)) {
        C.check(canon(sound(C, *Lib, "original"), {false}) == Before, "original", "original changed by " + O.text());
      }
    }
    if (Ending == 0) {
      T.abort();
      C.note("aborted");
      C.check(!T.commit(), "commit-after-abort", "commit after abort hands over a model");
      C.check(canon(sound(C, *Lib, "original"), {false}) == Before, "original", "original changed by abort");
      return;
    }
    if (Ending == 1) {
      Lib.reset();
      C.note("original_destroyed_before_commit");
    }
    auto Res = T.commit();
    if (!C.check(static_cast<bool>(Res), "commit", "commit of a consistent copy failed")) {
      return;
    }
    New = Res.extractValue();
    if (!C.check(New != nullptr, "commit", "commit hands over nothing")) {
      return;
    }
    C.note("committed");
    auto Again = T.commit();
    C.check(!Again, "second-commit", "second commit hands over a model");
  }
  auto Got = sound(C, *New, "edited copy");
  sameModel(C, Got, Gen.M, "effect", "edited copy");
  if (Lib) {
    C.check(canon(sound(C, *Lib, "original"), {false}) == Before, "original", "original changed");
    if (AllOk && Ending != 1) {
      // the same operations in place, on another instance
      auto Twin = Lib->clone();
      Handles HT(*Twin, snap(*Twin));
      // the twin's groups in the order of the original's
      std::map<const vfe::Relationship *, vfe::Relationship *> Zip;
      {
        std::vector<vfe::Relationship *> A, B;
        for (auto &Rl : std::as_const(*Lib).relationships()) {
          A.push_back(Rl.get());
        }
        for (auto &Rl : std::as_const(*Twin).relationships()) {
          B.push_back(Rl.get());
        }
        for (size_t K = 0; K < A.size() && K < B.size(); ++K) {
          Zip[A[K]] = B[K];
        }
      }
      for (size_t K = 0; K < H.G.size(); ++K) {
        HT.G.resize(H.G.size());
        HT.G[K] = Zip[H.G[K]];
      }
      {
        bool PtrSafe = true;
        std::set<std::string> Gone;
        Model Sim = Cur;
        std::vector<int> Map;
        for (size_t K = 0; K < Cur.G.size(); ++K) {
          Map.push_back(static_cast<int>(K));
        }
        auto T = ModTx::openTransaction(*Twin);
        for (auto O : Ops) {
          if (Gone.count(O.A)) {
            O.PtrA = false;
          }
          if (Gone.count(O.B)) {
            O.PtrB = false;
            PtrSafe = PtrSafe && O.Kind != EditOp::AddF;
          }
          auto Names = Sim.names();
          applyOp(Sim, O, Map);
          for (auto &X : Names) {
            if (!Sim.F.count(X)) {
              Gone.insert(X);
            }
          }
          if (!PtrSafe) {
            break;
          }
          stage(T, O, HT);
        }
        if (!PtrSafe) {
          T.abort();
        } else {
          C.note("compared_with_in_place");
          C.check(static_cast<bool>(T.commit()), "in-place", "the same operations fail in place");
          sameModel(C, sound(C, *Twin, "in place"), Got, "in-place", "in-place result differs from the copy's");
        }
      }
    }
    // the copy shares nothing with the original
    if (R.chance(50)) {
      Lib.reset();
    }
    sameModel(C, sound(C, *New, "copy alone"), Got, "effect", "edited copy after destroying the original");
  }
  C.distinct(Hist);
  C.sample(Hist.substr(Hist.find("root ")));
}
} // namespace
int main(int argc, char **argv) {
  return harnessMain(argc, argv, run, {});
}
