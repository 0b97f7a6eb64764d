// C09: a cloned model is an equal and fully independent copy.
#include "ops.h"
#include "vara/Feature/FeatureModelParser.h"
#include "vara/Feature/FeatureModelWriter.h"
using namespace vf;

namespace {
void nodesOf(const FM &M, std::set<const void *> &Out) {
  for (auto *F : M.unorderedFeatures()) {
    Out.insert(F);
    if (auto *N = llvm::dyn_cast<vfe::NumericFeature>(F)) {
      if (N->getStepFunction()) {
        Out.insert(N->getStepFunction());
      }
    }
  }
  for (auto &Rl : M.relationships()) {
    Out.insert(Rl.get());
  }
  for (auto &&X : M.booleanConstraints()) {
    Out.insert(X);
    collectNodes(X->constraint(), Out);
  }
  for (auto &&X : M.nonBooleanConstraints()) {
    Out.insert(X);
    collectNodes(X->constraint(), Out);
  }
  for (auto &&X : M.mixedConstraints()) {
    Out.insert(X);
    collectNodes(X->constraint(), Out);
  }
}

// edits applied to one of the two models
void edit(Ctx &C, FM &M) {
  auto &R = C.R;
  auto S = snap(M);
  OpGen Gen(R, S, false, true);
  Handles H(M, S);
  auto T = ModTx::openTransaction(M);
  size_t N = 1 + R.below(5);
  for (size_t I = 0; I < N; ++I) {
    EditOp O;
    Gen.next(O);
    C.say("edit: " + O.text());
    stage(T, O, H);
    C.note("edits");
  }
  C.check(static_cast<bool>(T.commit()), "edit", "edit fails");
  if (R.chance(40)) {
    // edits of features themselves
    for (auto *F : std::as_const(M).unorderedFeatures()) {
      if (R.chance(30)) {
        F->addLocation(FSR("edited.c", FSR::FeatureSourceLocation(1, 2), FSR::FeatureSourceLocation(3, 4)));
      } else if (R.chance(30) && F->hasLocations()) {
        F->getLocationsBegin()->setPath("changed");
      }
    }
  }
}

void run(Ctx &C) {
  auto &R = C.R;
  GenOpt G;
  G.MaxF = R.chance(15) ? 25 : 8;
  G.Groups = 2;
  G.Cons = 6;
  G.MinF = 0;
  auto M = genModel(R, G);
  if (R.chance(25)) {
    weirdNames(R, M, true);
  }
  if (R.chance(20)) {
    someUnknown(R, M, 30);
  }
  std::unique_ptr<FM> A;
  Canon Full;
  Full.Sorted = false;
  Full.StepText = true;
  if (R.chance(15)) {
    // a loaded model
    G.Groups = 0;
    G.FullLocs = true;
    G.Textual = true;
    G.XmlRoot = true;
    M = genModel(R, G);
    A = vfe::FeatureModelXmlParser(XmlOut(R, M, {true}).text()).buildFeatureModel();
    C.note("loaded");
  } else {
    A = buildTx(R, M);
  }
  if (!C.check(A != nullptr, "setup", "model cannot be built")) {
    return;
  }
  if (R.chance(30)) {
    // a model with history
    edit(C, *A);
    C.note("edited_first");
  }
  auto SA = canon(sound(C, *A, "original"), Full);
  C.say(SA);
  auto B = A->clone();
  C.note("clones");
  if (!C.check(B != nullptr, "clone", "no clone")) {
    return;
  }
  auto SB = canon(sound(C, *B, "clone"), Full);
  C.check(SA == SB, "equal", "clone differs from the original:\n" + diff(SB, SA));
  C.check(canon(snap(*A), Full) == SA, "original", "cloning changed the original");
  std::set<const void *> NA, NB;
  nodesOf(*A, NA);
  nodesOf(*B, NB);
  for (auto *P : NA) {
    if (NB.count(P)) {
      C.fail("shared", "clone shares an object with the original");
      break;
    }
  }
  C.note("objects_compared", NA.size());
  bool EditClone = R.chance(50);
  if (R.chance(60)) {
    FM &Victim = EditClone ? *B : *A;
    FM &Other = EditClone ? *A : *B;
    edit(C, Victim);
    C.check(canon(sound(C, Other, "other model"), Full) == SA, "independent",
            std::string(EditClone ? "editing the clone changed the original" : "editing the original changed the clone") +
                ":\n" + diff(canon(snap(Other), Full), SA));
    auto Keep = EditClone ? std::move(A) : std::move(B);
    A.reset();
    B.reset();
    C.check(canon(sound(C, *Keep, "survivor"), Full) == SA, "independent", "destroying one changed the other");
    A = std::move(Keep);
  } else {
    if (EditClone) {
      B.reset();
    } else {
      A = std::move(B);
    }
    C.check(canon(sound(C, *A, "survivor"), Full) == SA, "independent", "destroying one changed the other");
  }
  // the survivor is fully usable
  auto Cl = A->clone();
  C.check(Cl && canon(sound(C, *Cl, "clone of survivor"), Full) == SA, "equal", "clone of the survivor differs");
  (void)vfe::FeatureModelXmlWriter(*A).writeFeatureModel();
  edit(C, *A);
  sound(C, *A, "edited survivor");
  C.distinct(SA);
  C.sample(SA);
}
// root renamed, another feature called root
void probeRootName(Ctx &C) {
  for (auto Top : {"a", "b", "zz", "Root", "base", "x1", "x2", "x3"}) {
    Model M;
    M.Root = Top;
    MFeat X;
    X.Name = Top;
    X.Kind = 'r';
    M.F[Top] = X;
    X.Kind = 'b';
    X.Name = "root";
    X.Parent = Top;
    M.F["root"] = X;
    X.Name = "leaf";
    X.Parent = "root";
    M.F["leaf"] = X;
    auto A = buildTx(C.R, M);
    auto B = A->clone();
    if (C.check(B != nullptr, "clone", "no clone")) {
      sameModel(C, sound(C, *B, "clone"), M, "equal", "clone");
    }
  }
}
} // namespace
int main(int argc, char **argv) { return harnessMain(argc, argv, run, {{"root-name", probeRootName}}); }
