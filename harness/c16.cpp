// C16: every constraint operator has its defined meaning in the solver.
#include "solve.h"
using namespace vf;

namespace {
const std::vector<std::string> Bools = {"A", "B", "C"};
const std::vector<std::string> Nums = {"M", "N"};

Model world(Rng &R, bool Big) {
  Model M;
  M.Name = "m";
  M.Path = "p";
  MFeat X;
  X.Name = "root";
  X.Kind = 'r';
  M.F["root"] = X;
  for (auto &B : Bools) {
    X.Name = B;
    X.Kind = 'b';
    X.Opt = true;
    X.Parent = "root";
    M.F[B] = X;
  }
  for (auto &B : Nums) {
    X.Name = B;
    X.Kind = 'n';
    X.Opt = false;
    X.IsRange = false;
    X.Vals.clear();
    size_t K = 1 + R.below(3);
    std::set<int64_t> V;
    while (V.size() < K) {
      V.insert(Big ? static_cast<int64_t>(R.next()) >> R.below(40) : R.range(-4, 8));
    }
    X.Vals.assign(V.begin(), V.end());
    M.F[B] = X;
  }
  return M;
}
// logic over comparisons in which boolean features count
E genMixed(Rng &R, int D) {
  static const std::vector<Op> Cmp = {Op::Lt, Op::Gt, Op::Le, Op::Ge, Op::Eq, Op::Ne};
  static const std::vector<std::string> All = {"A", "B", "C", "M", "N"};
  if (D <= 0 || R.chance(60)) {
    return bin(R.pick(Cmp), genNum(R, 2, All, true), genNum(R, 1, All, true));
  }
  static const std::vector<Op> Ops = {Op::And, Op::Or, Op::Imp, Op::Eqv, Op::Not, Op::Xor, Op::Excl};
  Op O = R.pick(Ops);
  return O == Op::Not ? un(O, genMixed(R, D - 1)) : bin(O, genMixed(R, D - 1), genMixed(R, D - 1));
}
size_t magnitude(const E &X) {
  // products of extreme values leave the oracle's range
  if (!X) {
    return 0;
  }
  if (X->O == Op::Mul) {
    return magnitude(X->L) + magnitude(X->R);
  }
  if (isPrim(X->O)) {
    return 1;
  }
  return std::max(magnitude(X->L), magnitude(X->R));
}
bool productsSmall(const E &X) {
  if (!X) {
    return true;
  }
  return (X->O != Op::Mul || magnitude(X) <= 1 || (isPrim(X->L->O) && isPrim(X->R->O))) && productsSmall(X->L) &&
         productsSmall(X->R);
}
size_t sums(const E &X) { return X ? (X->O == Op::Add || X->O == Op::Sub) + sums(X->L) + sums(X->R) : 0; }

void count(Ctx &C, const E &X) {
  if (!X) {
    return;
  }
  if (!isPrim(X->O)) {
    C.note(std::string("op_") + opName(X->O));
  }
  count(C, X->L);
  count(C, X->R);
}

void accepts(Ctx &C, const Model &M, FM &L, const std::string &How) {
  auto Want = *enumerate(M, 100000);
  auto A = CF::getAllConfigs(L);
  C.note("worlds");
  if (Want.empty()) {
    C.note("contradictions");
    C.check(!A, "accepts", How + ": accepts something although nothing satisfies it");
    return;
  }
  if (!C.check(static_cast<bool>(A), "rejects", How + ": rejects everything")) {
    return;
  }
  auto V = A.extractValue();
  std::set<std::string> Got;
  for (auto &Cf : V) {
    Got.insert(configText(*Cf));
    C.note("assignments");
  }
  for (auto &T : Got) {
    C.check(Want.count(T) != 0, "accepts", How + ": accepts " + T);
  }
  for (auto &T : Want) {
    C.check(Got.count(T) != 0, "rejects", How + ": rejects " + T);
  }
}

void add(Model &M, const MCons &C) { (C.Kind == 0 ? M.B : C.Kind == 1 ? M.N : M.M).push_back(C); }

void run(Ctx &C) {
  auto &R = C.R;
  bool Big = R.chance(15);
  auto M = world(R, Big);
  size_t K = R.chance(80) ? 1 : 1 + R.below(3);
  std::string Key;
  for (size_t I = 0; I < K; ++I) {
    MCons X;
    for (int Try = 0; Try < 50; ++Try) {
      int D = static_cast<int>(1 + R.below(4));
      switch (R.below(4)) {
      case 0: X = {genBool(R, D, Bools, {}, false), 0}; break;
      case 1: X = {genBool(R, D, {}, Nums, false), 1}; break;
      case 2: X = {genBool(R, D, Bools, Nums, false), 1}; break;
      default: X = {genMixed(R, D - 1), 2, R.chance(50), R.chance(50)};
      }
      if (!Big || (productsSmall(X.X) && sums(X.X) < 20)) {
        break;
      }
      X.X = feat("A");
      X.Kind = 0;
    }
    if (X.Kind == 0 && R.chance(10)) {
      X.Kind = 1; // the list a constraint stands in does not matter for boolean ones
    }
    count(C, X.X);
    add(M, X);
    Key += sexp(X.X) + (X.Kind == 2 ? (X.All ? " all" : " none") + std::string(X.Neg ? " neg" : " pos") : "") + "; ";
  }
  C.say(Key);
  auto L = build(R, M);
  if (!C.check(L != nullptr, "setup", "not built")) {
    return;
  }
  accepts(C, M, *L, Key);
  C.distinct(canon(M));
  C.sample(Key);
}

// every operator on every assignment, as boolean, numeric and mixed constraint
void probeOperators(Ctx &C) {
  auto One = [&](MCons X) {
    auto M = world(C.R, false);
    M.F["M"].Vals = {-1, 0, 1, 2};
    M.F["N"].Vals = {-2, 0, 1, 3};
    add(M, X);
    auto L = build(C.R, M);
    accepts(C, M, *L, sexp(X.X));
  };
  for (Op O : {Op::And, Op::Or, Op::Xor, Op::Imp, Op::Excl, Op::Eqv}) {
    One({bin(O, feat("A"), feat("B")), 0});
    One({bin(O, un(Op::Not, feat("A")), feat("B")), 0});
    One({bin(O, feat("A"), un(Op::Not, feat("B"))), 0});
    One({un(Op::Not, bin(O, feat("A"), feat("B"))), 0});
    One({bin(O, bin(Op::Gt, feat("M"), num(0)), bin(Op::Lt, feat("N"), num(1))), 1});
    One({bin(O, feat("A"), bin(Op::Lt, feat("N"), num(1))), 1});
    One({bin(O, feat("A"), feat("A")), 0});
    One({bin(O, feat("root"), feat("B")), 0});
    for (Op P : {Op::And, Op::Or, Op::Xor, Op::Imp, Op::Excl, Op::Eqv}) {
      One({bin(O, bin(P, feat("A"), feat("B")), feat("C")), 0});
      One({bin(O, feat("A"), bin(P, feat("B"), feat("C"))), 0});
    }
  }
  One({un(Op::Not, feat("A")), 0});
  One({un(Op::Not, un(Op::Not, feat("A"))), 0});
  One({feat("A"), 0});
  for (Op O : {Op::Lt, Op::Gt, Op::Le, Op::Ge, Op::Eq, Op::Ne}) {
    One({bin(O, feat("M"), feat("N")), 1});
    One({bin(O, feat("M"), num(1)), 1});
    One({bin(O, num(1), feat("N")), 1});
    One({un(Op::Not, bin(O, feat("M"), feat("N"))), 1});
    for (Op P : {Op::Add, Op::Sub, Op::Mul}) {
      One({bin(O, bin(P, feat("M"), feat("N")), num(1)), 1});
      One({bin(O, num(1), bin(P, feat("N"), feat("M"))), 1});
    }
    One({bin(O, un(Op::Neg, feat("M")), feat("N")), 1});
    for (int K = 0; K < 4; ++K) {
      bool All = K & 1, Neg = K & 2;
      One({bin(O, feat("A"), feat("B")), 2, All, Neg});
      One({bin(O, feat("A"), num(1)), 2, All, Neg});
      One({bin(O, bin(Op::Mul, feat("A"), feat("M")), feat("N")), 2, All, Neg});
      One({bin(O, bin(Op::Add, feat("A"), feat("B")), num(1)), 2, All, Neg});
      One({bin(O, bin(Op::Sub, feat("A"), feat("M")), num(0)), 2, All, Neg});
      One({bin(O, un(Op::Neg, feat("A")), feat("M")), 2, All, Neg});
      One({bin(O, feat("M"), feat("N")), 2, All, Neg});
      One({bin(Op::And, bin(O, feat("A"), num(0)), bin(O, feat("B"), feat("C"))), 2, All, Neg});
    }
  }
}
void probeExtremes(Ctx &C) {
  for (auto V : std::vector<int64_t>{INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, INT64_C(1) << 32, -(INT64_C(1) << 31),
                                     INT64_C(1) << 31}) {
    for (Op O : {Op::Lt, Op::Gt, Op::Le, Op::Ge, Op::Eq, Op::Ne}) {
      auto M = world(C.R, false);
      M.F["M"].Vals = {V, 0};
      M.F["N"].Vals = {V, -1};
      M.N.push_back({bin(O, bin(Op::Add, feat("M"), feat("N")), bin(Op::Add, num(V), num(V))), 1});
      auto L = build(C.R, M);
      accepts(C, M, *L, sexp(M.N[0].X));
      M.N[0] = {bin(O, bin(Op::Mul, feat("M"), num(V)), bin(Op::Mul, feat("N"), feat("N"))), 1};
      L = build(C.R, M);
      accepts(C, M, *L, sexp(M.N[0].X));
    }
  }
}
} // namespace
int main(int argc, char **argv) {
  return harnessMain(argc, argv, run, {{"operators", probeOperators}, {"extremes", probeExtremes}});
}
