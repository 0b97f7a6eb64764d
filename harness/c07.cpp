// C07: printing and copying constraints preserve their meaning.
#include "expr.h"
#include "vara/Feature/FeatureModelBuilder.h"
using namespace vf;

// Same meaning: same tree, or no difference on any tried assignment.
static bool sameMeaning(Ctx &C, const E &A, const E &B) {
  if (sexp(A) == sexp(B)) {
    return true;
  }
  C.note("compared_by_value");
  std::set<std::string> N;
  feats(A, N);
  std::set<std::string> NB;
  feats(B, NB);
  if (N != NB) {
    return false;
  }
  Rng R(77);
  for (int I = 0; I < 400; ++I) {
    Env En;
    for (auto &X : N) {
      En[X] = I < 100 ? R.range(0, 1) : R.range(-9, 9);
    }
    if (evalE(A, En) != evalE(B, En)) {
      return false;
    }
  }
  return true;
}

static void mirror(Ctx &C, const E &X, bool Textual) {
  auto Lib = toLib(X);
  const std::string Before = sexp(fromLib(Lib.get()));
  C.eq(Before, sexp(X), "construct", "constructed constraint");
  auto Prob = linkProblem(Lib.get(), nullptr, Lib.get());
  C.check(Prob.empty(), "links", "original: " + Prob);

  std::string Text = Lib->toString();
  C.eq(Text, Lib->toString(), "print-unstable", "second print");
  C.say("printed: " + Text);
  auto Clone = Lib->clone();
  C.eq(sexp(fromLib(Lib.get())), Before, "altered", "original after printing and cloning");
  Prob = linkProblem(Lib.get(), nullptr, Lib.get());
  C.check(Prob.empty(), "altered", "original links after cloning: " + Prob);
  if (!C.check(Clone != nullptr, "clone", "no clone")) {
    return;
  }
  C.eq(sexp(fromLib(Clone.get())), Before, "clone", "clone");
  Prob = linkProblem(Clone.get(), nullptr, Clone.get());
  C.check(Prob.empty(), "clone-links", "clone: " + Prob);
  std::set<const void *> A, B;
  collectNodes(Lib.get(), A);
  collectNodes(Clone.get(), B);
  C.check(A.size() >= 1, "internal", "no nodes");
  for (auto *P : B) {
    if (A.count(P)) {
      C.fail("clone-shares", "the clone shares an object with the original");
      break;
    }
  }
  // one of the two goes away
  auto &Gone = C.R.chance(60) ? Lib : Clone;
  auto &Kept = &Gone == &Lib ? Clone : Lib;
  Gone.reset();
  C.eq(sexp(fromLib(Kept.get())), Before, "clone-lifetime", "survivor");
  C.eq(Kept->toString(), Text, "clone-print", "printed survivor");
  auto Second = Kept->clone();
  Kept.reset();
  C.eq(sexp(fromLib(Second.get())), Before, "clone-of-clone", "clone of the survivor");

  if (Textual) {
    bool Exact = true;
    E Ref = RefParser::parse(Text, Exact);
    E Want = normExcl(X);
    if (C.check(Ref != nullptr, "print-malformed", "printed text is no constraint: " + Text)) {
      C.check(sameMeaning(C, Ref, Want), "print-meaning",
              "printed <" + Text + "> means " + sexp(Ref) + ", printed was " + sexp(Want));
    }
    auto Again = vfe::ConstraintParser(Text).buildConstraint();
    if (C.check(Again != nullptr, "reparse", "printed text is rejected: " + Text)) {
      C.check(sameMeaning(C, fromLib(Again.get()), Want), "reparse-meaning",
              "reparsed " + sexp(fromLib(Again.get())) + ", printed was " + sexp(Want));
      C.eq(Again->toString(), vfe::ConstraintParser(Again->toString()).buildConstraint()->toString(),
           "print-fixpoint", "print of the reparsed print");
      Prob = linkProblem(Again.get(), nullptr, Again.get());
      C.check(Prob.empty(), "links", "reparsed: " + Prob);
    }
    C.note("reparsed");
  }
}

// a constraint that belongs to a model: copies must survive the model
static void inModel(Ctx &C, const E &X) {
  std::set<std::string> N;
  feats(X, N);
  auto Builder = std::make_unique<vfe::FeatureModelBuilder>();
  for (auto &F : N) {
    Builder->makeFeature<vfe::BinaryFeature>(F, true);
  }
  Builder->addConstraint(
      std::make_unique<vfe::FeatureModel::BooleanConstraint>(toLib(X)));
  auto FM = Builder->buildFeatureModel();
  if (!C.check(FM != nullptr, "model", "model not built")) {
    return;
  }
  std::vector<std::unique_ptr<vfe::Constraint>> Copies;
  for (auto *MC : std::as_const(*FM).booleanConstraints()) {
    auto *K = MC->constraint();
    C.eq(sexp(fromLib(K)), sexp(X), "model-constraint", "constraint in the model");
    auto P = linkProblem(K, nullptr, K);
    C.check(P.empty(), "links", "in model: " + P);
    Copies.push_back(K->clone());
    std::set<const void *> A, B;
    collectNodes(K, A);
    collectNodes(Copies.back().get(), B);
    for (auto *Q : B) {
      C.check(!A.count(Q), "clone-shares", "copy of a model's constraint shares an object with it");
    }
    C.eq(sexp(fromLib(K)), sexp(X), "altered", "model constraint after copying");
  }
  C.eq(Copies.size(), size_t(1), "model", "number of constraints");
  FM.reset();
  for (auto &K : Copies) {
    C.eq(sexp(fromLib(K.get())), sexp(X), "clone-lifetime", "copy after the model is gone");
    (void)K->toString();
  }
  C.note("in_model");
}

static void run(Ctx &C) {
  auto &R = C.R;
  auto Names = genNames(R, 1 + R.below(5));
  bool Textual = R.chance(70);
  E X;
  int D = static_cast<int>(1 + R.below(C.Thorough ? 8 : 6));
  if (R.chance(60)) {
    X = genAny(R, D, Names, Textual, R.chance(30));
  } else {
    auto Nums = genNames(R, 2);
    for (auto &N : Nums) {
      N = "n_" + N;
    }
    X = genBool(R, D, Names, Nums, Textual);
  }
  if (R.chance(15)) {
    X = bin(Op::Excl, X, genAny(R, 2, Names, Textual));
    // printed as implication of the negation
  }
  C.say("tree: " + sexp(X));
  if (nodes(X) > 2) {
    C.distinct(sexp(X));
    C.sample(sexp(X));
  }
  C.note("nodes", nodes(X));
  bool Printable = sexp(X).find("(/ ") == std::string::npos &&
                   sexp(X).find("(^ ") == std::string::npos;
  mirror(C, X, Printable);
  if (R.chance(20)) {
    inModel(C, X);
  }
}

int main(int argc, char **argv) {
  return harnessMain(argc, argv, run, {});
}
