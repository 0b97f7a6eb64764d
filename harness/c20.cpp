// C20: step functions: accept / reject and values against an own reading.
#include "common.h"
#include "step.h"
#include "vara/Feature/StepFunction.h"
#include "vara/Feature/StepFunctionParser.h"
#include <cmath>
using namespace vf;
namespace vfe = vara::feature;

namespace {
using Ref = StepRef;
std::optional<Ref> readRef(const std::string &T) { return readStep(T); }
double value(const Ref &F, double X) { return stepValue(F, X); }

bool close(double A, double B, bool Exact) {
  if (std::isnan(A) || std::isnan(B)) {
    return std::isnan(A) && std::isnan(B);
  }
  if (A == B) {
    return true;
  }
  if (Exact || std::isinf(A) || std::isinf(B)) {
    return false;
  }
  return std::fabs(A - B) <= 1e-12 * std::max(std::fabs(A), std::fabs(B));
}

std::string num(double D) {
  char B[64];
  std::snprintf(B, sizeof B, "%.17g", D);
  return B;
}

// printed text -> tokens
std::optional<Ref> printed(const std::string &T) { return readRef(T); }

void values(Ctx &C, vfe::StepFunction &S, const Ref &F, const std::string &What) {
  auto &R = C.R;
  for (int I = 0; I < 12; ++I) {
    double X;
    switch (R.below(5)) {
    case 0: X = static_cast<double>(R.range(-20, 20)); break;
    case 1: X = static_cast<double>(R.range(-100000, 100000)) / 64.0; break;
    case 2: X = static_cast<double>(R.range(0, 1)); break;
    case 3: X = static_cast<double>(R.range(-1000000000, 1000000000)); break;
    default: X = static_cast<double>(R.range(1, 9)) * 1e-3;
    }
    C.note("evaluations");
    double W = value(F, X), G = S(X), N = S.next<double>(X);
    C.check(close(G, W, F.Op != '^'), "value", What + " at " + num(X) + ": got " + num(G) + " want " + num(W));
    C.check(close(N, W, F.Op != '^'), "value-next", What + " next at " + num(X) + ": got " + num(N) + " want " + num(W));
    // integers: exact whenever the arithmetic stays within the integers
    int64_t Xi = R.chance(70) ? R.range(-12, 40) : R.range(-1000000, 1000000);
    double Wi = value(F, static_cast<double>(Xi));
    if (std::isfinite(Wi) && std::fabs(Wi) < 4503599627370496.0 &&
        F.Num == std::floor(F.Num) && Wi == std::floor(Wi)) {
      C.note("integer_evaluations");
      C.eq(S.next<int64_t>(Xi), static_cast<int64_t>(Wi), "value-int", What + " at integer " + std::to_string(Xi));
      if (std::fabs(Wi) < 2e9 && std::llabs(Xi) < 2000000000) {
        C.eq(S.next<int>(static_cast<int>(Xi)), static_cast<int>(Wi), "value-int", What + " at int " + std::to_string(Xi));
      }
    } else if (std::isfinite(Wi) && std::fabs(Wi) < 4503599627370496.0 && F.Op != '^' &&
               Wi != std::floor(Wi)) {
      // fractional steps: the integer view is the real value cut off
      C.eq(S.next<int64_t>(Xi), static_cast<int64_t>(Wi), "value-int", What + " at integer " + std::to_string(Xi));
    }
  }
}

void judgeObject(Ctx &C, vfe::StepFunction &S, const Ref &F, const std::string &What) {
  values(C, S, F, What);
  auto T = S.toString();
  C.say("printed: " + T);
  auto P = printed(T);
  if (C.check(P.has_value(), "print", "printed text is no step function: " + T)) {
    C.check(P->Left == F.Left && P->Op == F.Op && P->Var == F.Var && P->Num == F.Num, "print",
            "printed <" + T + "> is not " + What);
  }
  auto Again = vfe::StepFunctionParser(T).buildStepFunction();
  if (C.check(Again != nullptr, "reparse", "printed text rejected: " + T)) {
    values(C, *Again, F, "reparsed " + T);
    C.eq(Again->toString(), T, "print", "print of the reparsed print");
  }
}

void judge(Ctx &C, const std::string &T) {
  C.say("text: " + T);
  auto Want = readRef(T);
  auto Got = vfe::StepFunctionParser(T).buildStepFunction();
  if (!Want) {
    C.note("rejected");
    C.check(!Got, "accepts-malformed", "accepted as " + (Got ? Got->toString() : ""));
    return;
  }
  C.note("accepted");
  if (C.check(Got != nullptr, "rejects-wellformed", "rejected")) {
    judgeObject(C, *Got, *Want, T);
  }
}

std::string genNum(Rng &R) {
  switch (R.below(8)) {
  case 0: return std::to_string(R.below(3));
  case 1: return std::to_string(R.below(5)) + "." + std::to_string(R.below(1000));
  case 2: return "." + std::to_string(R.below(100));
  case 3: return std::to_string(R.below(1000)) + ".";
  case 4: return "0." + std::string(R.below(12), '0') + std::to_string(1 + R.below(99999));
  case 5: return std::to_string(R.next() >> R.below(64));
  case 6: return "00" + std::to_string(R.below(50));
  default: return std::to_string(R.below(20));
  }
}
std::string genVar(Rng &R) {
  static const std::vector<std::string> P = {"x", "X", "y", "value", "e1", "a_b", "E", "inf", "nan", "x2", "infinity"};
  return R.pick(P);
}
std::string ws(Rng &R) {
  static const std::vector<std::string> W = {"", "", " ", "  ", "\t", "\n", "\r\n "};
  return R.pick(W);
}

void run(Ctx &C) {
  auto &R = C.R;
  std::string Good;
  {
    std::string A = genVar(R), B = genNum(R);
    if (R.chance(50)) {
      std::swap(A, B);
    }
    Good = ws(R) + A + ws(R) + "+*^"[R.below(3)] + ws(R) + B + ws(R);
  }
  switch (R.below(10)) {
  case 0: case 1: case 2: case 3:
    C.distinct(Good);
    C.sample(Good);
    judge(C, Good);
    return;
  case 4: case 5: { // constructed directly
    Ref F{R.chance(50), "+*^"[R.below(3)], 0, genVar(R)};
    F.Num = std::strtod(genNum(R).c_str(), nullptr);
    if (R.chance(15)) {
      F.Num = std::ldexp(static_cast<double>(R.next() >> 11), static_cast<int>(R.range(-60, 20)));
    }
    auto K = F.Op == '+' ? vfe::StepFunction::StepOperation::ADDITION
             : F.Op == '*' ? vfe::StepFunction::StepOperation::MULTIPLICATION
                           : vfe::StepFunction::StepOperation::EXPONENTIATION;
    std::unique_ptr<vfe::StepFunction> S;
    if (R.chance(50)) {
      S = F.Left ? std::make_unique<vfe::StepFunction>(F.Var, K, F.Num)
                 : std::make_unique<vfe::StepFunction>(F.Num, K, F.Var);
    } else {
      F.Var = "x";
      S = F.Left ? std::make_unique<vfe::StepFunction>(K, F.Num)
                 : std::make_unique<vfe::StepFunction>(F.Num, K);
    }
    std::string W = F.Left ? F.Var + F.Op + num(F.Num) : num(F.Num) + F.Op + F.Var;
    C.say("constructed: " + W);
    C.distinct("ctor " + W);
    C.note("constructed");
    judgeObject(C, *S, F, W);
    return;
  }
  case 6: case 7: { // one damage
    std::string T = Good;
    static const std::string Ins = "+*^.x1 -/()eE_,";
    size_t P = R.below(T.size() + 1);
    switch (R.below(4)) {
    case 0: if (P < T.size()) { T.erase(P, 1 + R.below(2)); } break;
    case 1: T.insert(P, 1, Ins[R.below(Ins.size())]); break;
    case 2: if (P < T.size()) { T[P] = Ins[R.below(Ins.size())]; } break;
    default: T = T.substr(0, P);
    }
    C.distinct(T);
    judge(C, T);
    return;
  }
  case 8: { // token soup
    static const std::vector<std::string> Tk = {"x", "y", "1", "2.5", "+", "*", "^", ".", " ", "-", "e3", "1e3", "1.2.3", "..", "+", "*", "^"};
    std::string T;
    size_t N = R.below(6);
    while (N--) {
      T += R.pick(Tk);
      if (R.chance(30)) { T += " "; }
    }
    C.distinct(T);
    judge(C, T);
    return;
  }
  default: {
    std::string T;
    size_t N = R.below(R.chance(5) ? 3000 : 20);
    while (N--) {
      T += static_cast<char>(R.chance(40) ? R.below(256) : "x1.+*^ "[R.below(7)]);
    }
    C.distinct(T);
    C.note("bytes");
    C.say("bytes: " + show(T));
    if (T.find('\0') != std::string::npos || T.find('\xff') != std::string::npos) {
      (void)vfe::StepFunctionParser(T).buildStepFunction();
      return;
    }
    judge(C, T);
  }
  }
}
} // namespace
#define PROBE(NAME, TEXT) {NAME, [](Ctx &C) { judge(C, TEXT); }}
int main(int argc, char **argv) {
  return harnessMain(argc, argv, run,
                     {PROBE("empty-text", ""), PROBE("blank-text", "  \n"), PROBE("two-dots", "x + 1.2.3"),
                      PROBE("only-dot", "x * ."), PROBE("large-number", "x + 123456789"),
                      PROBE("small-number", "x * 0.000001"), PROBE("zero-power", "x ^ 0"), PROBE("half-power", ".5^x")});
}
