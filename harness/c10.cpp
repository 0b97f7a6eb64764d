// C10: committed in-place edits have exactly their specified effect.
#include "ops.h"
using namespace vf;

namespace {
void run(Ctx &C) {
  auto &R = C.R;
  GenOpt G;
  G.MaxF = 8;
  G.Groups = R.chance(70) ? 2 : 0;
  G.Cons = 4;
  auto M = genModel(R, G);
  uniqueLocs(M);
  if (R.chance(25)) {
    weirdNames(R, M, true);
  }
  auto Lib = build(R, M);
  if (!C.check(Lib != nullptr, "setup", "model cannot be built")) {
    return;
  }
  someUnknown(R, M, 0);
  auto Cur = sound(C, *Lib, "start");
  if (!sameModel(C, Cur, M, "setup", "built model")) {
    return;
  }
  std::string Hist = canon(Cur);
  size_t Rounds = 1 + R.below(4);
  for (size_t Rd = 0; Rd < Rounds && !C.Failed; ++Rd) {
    C.say("model:\n" + canon(Cur));
    Handles H(*Lib, Cur);
    bool Bad = R.chance(40);
    OpGen Gen(R, Cur, Bad, true);
    std::string Err;
    size_t N = 1 + R.below(R.chance(20) ? 14 : 5);
    int Ending = static_cast<int>(R.below(20)); // 0 abort, 1 destructor, else commit
    bool Ok = true;
    std::vector<EditOp> Ops;
    {
      auto T = ModTx::openTransaction(*Lib);
      for (size_t I = 0; I < N; ++I) {
        EditOp O;
        auto E = Gen.next(O);
        if (!Err.empty()) {
          break;
        }
        Err = E;
        C.say(O.text() + (E.empty() ? "" : "   -> " + E));
        Hist += O.text() + "\n";
        Ops.push_back(O);
        stage(T, O, H);
        C.note(E.empty() ? "operations" : "refused_operations");
      }
      auto Mid = sound(C, *Lib, "before commit");
      sameModel(C, Mid, Cur, "before-commit", "model changed before commit");
      if (Ending == 0) {
        T.abort();
        C.note("aborted");
        sameModel(C, sound(C, *Lib, "after abort"), Cur, "abort", "aborted transaction changed the model");
        C.check(!T.commit(), "commit-after-abort", "commit after abort reports success");
        sameModel(C, sound(C, *Lib, "after abort and commit"), Cur, "abort", "commit after abort changed the model");
        continue;
      }
      if (Ending == 1) {
        C.note("committed_by_destructor");
      } else {
        auto Res = T.commit();
        Ok = static_cast<bool>(Res);
        C.say(Ok ? "commit: ok" : "commit: error");
        C.check(Ok == Err.empty(), "verdict",
                Err.empty() ? "commit of valid operations reports an error" : "commit reports success although: " + Err);
        if (R.chance(15)) {
          auto S1 = snap(*Lib);
          C.check(!T.commit(), "second-commit", "second commit reports success");
          sameModel(C, snap(*Lib), S1, "second-commit", "second commit changed the model");
        }
      }
    }
    auto After = sound(C, *Lib, "after commit");
    if (Err.empty()) {
      C.note("committed");
      Model Want = Gen.M;
      sameModel(C, After, Want, "effect", "model after commit");
    } else {
      C.note("commits_refused");
      // either nothing or what preceded the refused operation
      auto A = canon(After);
      C.check(A == canon(Cur) || A == canon(Gen.M) ||
                  [&] {
                    OpGen Re(R, Cur, Bad, true);
                    Model P = Cur;
                    std::vector<int> Map = Re.GroupMap;
                    for (auto &O : Ops) {
                      if (!applyOp(P, O, Map).empty()) {
                        break;
                      }
                    }
                    return A == canon(P);
                  }(),
              "effect-of-refused", "after a refused commit:\n" + diff(A, canon(Cur)));
    }
    Cur = After;
  }
  // still usable
  auto Cl = Lib->clone();
  C.check(Cl && canon(snap(*Cl)) == canon(Cur), "clone", "edited model does not clone");
  C.distinct(Hist);
  C.sample(Hist.substr(Hist.find("root ")));
}

std::unique_ptr<FM> mk(Ctx &C, Model &M) {
  M = Model();
  M.Root = "root";
  auto Add = [&](const char *N, const char *P, char K = 'b') {
    MFeat X;
    X.Name = N;
    X.Parent = P;
    X.Kind = K;
    M.F[N] = X;
  };
  Add("root", "", 'r');
  Add("A", "root");
  Add("B", "A");
  Add("D", "B");
  Add("E", "root");
  Add("N", "root", 'n');
  return buildTx(C.R, M);
}
// each refusal by itself
void probeRefusals(Ctx &C) {
  struct Case { const char *What; std::function<void(ModTx &, FM &)> Do; };
  std::vector<Case> Cs = {
      {"remove missing", [](ModTx &T, FM &) { FV V = std::string("X"); T.removeFeature(V); }},
      {"remove inner", [](ModTx &T, FM &) { FV V = std::string("A"); T.removeFeature(V); }},
      {"remove root", [](ModTx &T, FM &) { FV V = std::string("root"); T.removeFeature(V); }},
      {"remove root recursively", [](ModTx &T, FM &) { FV V = std::string("root"); T.removeFeature(V, true); }},
      {"duplicate", [](ModTx &T, FM &) { T.addFeature(std::make_unique<vfe::BinaryFeature>("D")); }},
      {"duplicate root name", [](ModTx &T, FM &) { T.addFeature(std::make_unique<vfe::BinaryFeature>("root")); }},
      {"second root", [](ModTx &T, FM &) { T.addFeature(std::make_unique<vfe::RootFeature>("top")); }},
      {"second root below", [](ModTx &T, FM &M) { T.addFeature(std::make_unique<vfe::RootFeature>("top"), M.getFeature("B")); }},
      {"own child", [](ModTx &T, FM &) { T.addChild("A", "A"); }},
      {"cycle", [](ModTx &T, FM &) { T.addChild("D", "A"); }},
      {"move root", [](ModTx &T, FM &) { T.addChild("D", "root"); }},
      {"missing parent", [](ModTx &T, FM &) { T.addChild("X", "A"); }},
      {"missing child", [](ModTx &T, FM &) { T.addChild("A", "X"); }},
      {"group below missing", [](ModTx &T, FM &) { T.addRelationship(RKind::RK_OR, "X"); }},
      {"dissolve missing", [](ModTx &T, FM &) { T.removeRelationship("X"); }},
      {"dissolve none", [](ModTx &T, FM &) { T.removeRelationship("A"); }},
      {"location of missing", [](ModTx &T, FM &) { T.addLocation("X", FSR("a", {}, {})); }},
      {"remove location of missing", [](ModTx &T, FM &) { FV V = std::string("X"); T.removeLocation(V, FSR("a", {}, {})); }},
      {"constraint on missing", [](ModTx &T, FM &) {
         T.addConstraint(std::make_unique<FM::BooleanConstraint>(mkExpr(bin(Op::Imp, feat("A"), feat("X"))))); }},
      {"nonbool on missing", [](ModTx &T, FM &) {
         T.addConstraint(std::make_unique<FM::NonBooleanConstraint>(mkExpr(bin(Op::Le, feat("X"), num(1))))); }},
      {"mixed on missing", [](ModTx &T, FM &) {
         T.addConstraint(std::make_unique<FM::MixedConstraint>(mkExpr(bin(Op::Le, feat("N"), feat("X"))),
                         FM::MixedConstraint::Req::ALL, FM::MixedConstraint::ExprKind::POS)); }},
      {"root name taken", [](ModTx &T, FM &) { T.setRoot(std::make_unique<vfe::RootFeature>("A")); }},
  };
  for (auto &X : Cs) {
    Model M;
    auto L = mk(C, M);
    auto T = ModTx::openTransaction(*L);
    X.Do(T, *L);
    auto Res = T.commit();
    C.check(!Res, "verdict", std::string(X.What) + ": commit reports success");
    sameModel(C, sound(C, *L, X.What), M, "effect", X.What);
  }
}
// a root is replaced with everything below it staying
void probeRoot(Ctx &C) {
  Model M;
  auto L = mk(C, M);
  {
    auto T = ModTx::openTransaction(*L);
    T.addRelationship(RKind::RK_ALTERNATIVE, "root");
    C.check(static_cast<bool>(T.commit()), "verdict", "group below root");
  }
  auto T = ModTx::openTransaction(*L);
  T.setRoot(std::make_unique<vfe::RootFeature>("top"));
  T.addFeature(std::make_unique<vfe::BinaryFeature>("Z"));
  C.check(static_cast<bool>(T.commit()), "verdict", "new root");
  M.Root = "top";
  M.F.erase("root");
  MFeat X;
  X.Name = "top";
  X.Kind = 'r';
  M.F["top"] = X;
  M.G.push_back({true, "top"});
  for (auto &[K, Y] : M.F) {
    if (Y.Parent == "root") {
      Y.Parent = "top";
      Y.Group = 0;
    }
  }
  X.Name = "Z";
  X.Kind = 'b';
  X.Parent = "top";
  M.F["Z"] = X;
  sameModel(C, sound(C, *L, "new root"), M, "effect", "new root");
}
// several relationships, one after the other
void probeGroups(Ctx &C) {
  Model M;
  auto L = mk(C, M);
  auto Do = [&](auto F) {
    auto T = ModTx::openTransaction(*L);
    F(T);
    C.check(static_cast<bool>(T.commit()), "verdict", "group edits");
  };
  Do([](auto &T) { T.addRelationship(RKind::RK_OR, "root"); });
  Do([](auto &T) { T.addFeature(std::make_unique<vfe::BinaryFeature>("Z")); });
  Do([](auto &T) { T.addRelationship(RKind::RK_ALTERNATIVE, "root"); });
  Do([](auto &T) { T.addRelationship(RKind::RK_ALTERNATIVE, "B"); });
  M.G = {{false, "root"}, {true, "root"}, {true, "B"}};
  M.F["A"].Group = M.F["E"].Group = M.F["N"].Group = 0;
  M.F["D"].Group = 2;
  MFeat X;
  X.Name = "Z";
  X.Parent = "root";
  X.Group = 1;
  M.F["Z"] = X;
  sameModel(C, sound(C, *L, "groups"), M, "effect", "groups");
  Do([](auto &T) { T.removeRelationship("B"); });
  M.F["D"].Group = -1;
  M.G.pop_back();
  sameModel(C, sound(C, *L, "groups"), M, "effect", "dissolved");
}
} // namespace
int main(int argc, char **argv) {
  return harnessMain(argc, argv, run,
                     {{"refusals", probeRefusals}, {"new-root", probeRoot}, {"groups", probeGroups}});
}
