// C08: fluent constraint builder against a reference reading of the calls.
#include "expr.h"
using namespace vf;

namespace {
enum class Call { Feat, Const, Un, Bin, Open, Close, All, Build };
struct Step {
  Call K;
  Op O = Op::Int;
  std::string Name;
  int V = 0;
};

std::string showStep(const Step &S) {
  switch (S.K) {
  case Call::Feat: return S.Name;
  case Call::Const: return std::to_string(S.V);
  case Call::Un:
  case Call::Bin: return opName(S.O);
  case Call::Open: return "(";
  case Call::Close: return ")";
  case Call::All: return "()";
  case Call::Build: return ";";
  }
  return "?";
}

// Reads the calls left to right.  nullptr: not a complete expression.
struct Ref {
  std::vector<E> Vals;
  struct Ent { char K; Op O; };
  std::vector<Ent> Ops;
  bool WantOperand = true;
  bool Bad = false;
  void reduce() {
    auto X = Ops.back();
    Ops.pop_back();
    auto B = Vals.back();
    Vals.pop_back();
    if (X.K == 'u') {
      Vals.push_back(un(X.O, B));
    } else {
      auto A = Vals.back();
      Vals.pop_back();
      Vals.push_back(bin(X.O, A, B));
    }
  }
  bool open() const {
    return std::any_of(Ops.begin(), Ops.end(), [](auto &E) { return E.K == '('; });
  }
  void step(const Step &S) {
    if (Bad) {
      return;
    }
    switch (S.K) {
    case Call::Feat:
    case Call::Const:
      if (!WantOperand) { Bad = true; return; }
      Vals.push_back(S.K == Call::Feat ? feat(S.Name) : num(S.V));
      WantOperand = false;
      return;
    case Call::Un:
      if (!WantOperand) { Bad = true; return; }
      Ops.push_back({'u', S.O});
      return;
    case Call::Open:
      if (!WantOperand) { Bad = true; return; }
      Ops.push_back({'(', Op::Int});
      return;
    case Call::Bin:
      if (WantOperand) { Bad = true; return; }
      while (!Ops.empty() && Ops.back().K != '(' &&
             (Ops.back().K == 'u' || prec(Ops.back().O) <= prec(S.O))) {
        reduce();
      }
      Ops.push_back({'o', S.O});
      WantOperand = true;
      return;
    case Call::Close:
      if (WantOperand || !open()) { Bad = true; return; }
      while (Ops.back().K != '(') {
        reduce();
      }
      Ops.pop_back();
      return;
    case Call::All:
      if (WantOperand || open()) { Bad = true; return; }
      while (!Ops.empty()) {
        reduce();
      }
      return;
    case Call::Build: return;
    }
  }
  E result() {
    if (Bad || WantOperand || open()) {
      return nullptr;
    }
    while (!Ops.empty()) {
      reduce();
    }
    return Vals.size() == 1 ? Vals[0] : nullptr;
  }
};

void apply(vfe::ConstraintBuilder &B, const Step &S) {
  switch (S.K) {
  case Call::Feat: B.feature(S.Name); return;
  case Call::Const: B.constant(S.V); return;
  case Call::Open: B.openPar(); return;
  case Call::Close: B.closePar(); return;
  case Call::All: B(); return;
  case Call::Un: S.O == Op::Not ? B.lNot() : B.neg(); return;
  case Call::Build: return;
  case Call::Bin: break;
  }
  switch (S.O) {
  case Op::Mul: B.multiply(); return;
  case Op::Div: B.divide(); return;
  case Op::Add: B.add(); return;
  case Op::Sub: B.subtract(); return;
  case Op::Lt: B.less(); return;
  case Op::Gt: B.greater(); return;
  case Op::Le: B.lessEqual(); return;
  case Op::Ge: B.greaterEqual(); return;
  case Op::Eq: B.equal(); return;
  case Op::Ne: B.notEqual(); return;
  case Op::And: B.lAnd(); return;
  case Op::Or: B.lOr(); return;
  case Op::Xor: B.lXor(); return;
  case Op::Imp: B.implies(); return;
  case Op::Excl: B.excludes(); return;
  case Op::Eqv: B.equivalent(); return;
  default: return;
  }
}

const std::vector<Op> Bins = {Op::Mul, Op::Div, Op::Add, Op::Sub, Op::Lt, Op::Gt,
                              Op::Le,  Op::Ge,  Op::Eq,  Op::Ne,  Op::And, Op::Or,
                              Op::Xor, Op::Imp, Op::Excl, Op::Eqv};

int someInt(Rng &R) {
  switch (R.below(4)) {
  case 0: return static_cast<int>(R.range(-5, 5));
  case 1: return R.chance(50) ? INT32_MAX : INT32_MIN;
  default: return static_cast<int>(R.range(-100000, 100000));
  }
}

// spell a tree as calls, parenthesised where precedence demands it and
// sometimes where it does not
void spell(Rng &R, const E &X, int Outer, bool Right, int Extra, std::vector<Step> &Out) {
  bool Par = isBin(X->O) && (prec(X->O) > Outer || (prec(X->O) == Outer && Right));
  int Pars = (Par ? 1 : 0) + (R.chance(Extra) ? 1 : 0);
  for (int I = 0; I < Pars; ++I) {
    Out.push_back({Call::Open});
  }
  if (X->O == Op::Feat) {
    Out.push_back({Call::Feat, Op::Int, X->Name});
  } else if (X->O == Op::Int) {
    Out.push_back({Call::Const, Op::Int, "", static_cast<int>(X->V)});
  } else if (isUn(X->O)) {
    Out.push_back({Call::Un, X->O});
    spell(R, X->L, 0, false, Extra, Out);
  } else {
    spell(R, X->L, prec(X->O), false, Extra, Out);
    Out.push_back({Call::Bin, X->O});
    spell(R, X->R, prec(X->O), true, Extra, Out);
  }
  for (int I = 0; I < Pars; ++I) {
    Out.push_back({Call::Close});
  }
}

void judge(Ctx &C, const std::vector<Step> &S, const char *What) {
  std::string T;
  for (auto &X : S) {
    T += showStep(X) + " ";
  }
  C.say("calls: " + T);
  if (S.size() > 2) {
    C.distinct(T);
    C.sample(T);
  }
  Ref Rf;
  vfe::ConstraintBuilder B;
  for (auto &X : S) {
    Rf.step(X);
    apply(B, X);
  }
  auto Got = B.build();
  E Want = Rf.result();
  C.note(Want ? "complete" : "refused");
  C.note(What);
  if (!Want) {
    C.check(!Got, "accepts-illformed",
            "built " + (Got ? sexp(fromLib(Got.get())) : "") + " from an incomplete or ill-formed sequence");
    return;
  }
  if (!C.check(Got != nullptr, "rejects-complete", "no constraint; want " + sexp(Want))) {
    return;
  }
  C.eq(sexp(fromLib(Got.get())), sexp(Want), "wrong-tree", "built constraint");
  auto P = linkProblem(Got.get(), nullptr, Got.get());
  C.check(P.empty(), "links", P);
}

void run(Ctx &C) {
  auto &R = C.R;
  auto Names = genNames(R, 1 + R.below(4));
  std::vector<Step> S;
  if (R.chance(50)) { // complete expression
    E X = genAny(R, 1 + static_cast<int>(R.below(6)), Names, false, false);
    spell(R, X, 9, false, R.chance(50) ? 0 : 25, S);
    for (auto &K : S) {
      if (K.K == Call::Const && R.chance(50)) {
        K.V = someInt(R);
      }
    }
    // close everything so far, anywhere
    size_t N = R.chance(40) ? 1 + R.below(3) : 0;
    while (N--) {
      S.insert(S.begin() + static_cast<long>(R.below(S.size() + 1)), {Call::All});
    }
    if (R.chance(35)) { // one damage
      size_t P = R.below(S.size());
      switch (R.below(3)) {
      case 0: S.erase(S.begin() + static_cast<long>(P)); break;
      case 1: S.insert(S.begin() + static_cast<long>(P), S[R.below(S.size())]); break;
      default: std::swap(S[P], S[R.below(S.size())]);
      }
    }
    judge(C, S, "spelled");
    return;
  }
  // random calls, biased towards what may follow
  bool Want = true;
  int Depth = 0;
  size_t N = R.below(C.Thorough ? 40 : 25);
  for (size_t I = 0; I < N; ++I) {
    bool Sane = R.chance(93);
    bool W = Sane ? Want : !Want;
    if (W) {
      switch (R.below(6)) {
      case 0: S.push_back({Call::Un, R.chance(50) ? Op::Not : Op::Neg}); break;
      case 1: S.push_back({Call::Open}); ++Depth; break;
      case 2: S.push_back({Call::Const, Op::Int, "", someInt(R)}); Want = false; break;
      default: S.push_back({Call::Feat, Op::Int, R.pick(Names)}); Want = false;
      }
    } else {
      switch (R.below(8)) {
      case 0: S.push_back({Call::Close}); --Depth; break;
      case 1:
        if (Depth > 0 && R.chance(80)) {
          S.push_back({Call::Close});
          --Depth;
        } else {
          S.push_back({Call::All});
        }
        break;
      default: S.push_back({Call::Bin, R.pick(Bins)}); Want = true;
      }
    }
  }
  if (R.chance(60)) { // complete it
    if (Want) {
      S.push_back({Call::Feat, Op::Int, R.pick(Names)});
    }
    while (Depth-- > 0) {
      S.push_back({Call::Close});
    }
  }
  judge(C, S, "random");
}
} // namespace

int main(int argc, char **argv) {
  return harnessMain(
      argc, argv, run,
      {{"empty", [](Ctx &C) { judge(C, {}, "probe"); }},
       {"only-parentheses", [](Ctx &C) { judge(C, {{Call::Open}, {Call::Close}}, "probe"); }},
       {"all-of-nothing", [](Ctx &C) { judge(C, {{Call::All}}, "probe"); }}});
}
