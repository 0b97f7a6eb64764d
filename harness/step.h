// Reference reading of step functions.
#ifndef VERIF_STEP_H
#define VERIF_STEP_H
#include "common.h"
#include <cmath>
namespace vf {
struct StepRef {
  bool Left; // variable on the left
  char Op;
  double Num;
  std::string Var;
};

inline bool isSp(char C) { return C == ' ' || C == '\t' || C == '\r' || C == '\n'; }
inline bool isAl(char C) { return (C >= 'a' && C <= 'z') || (C >= 'A' && C <= 'Z'); }
inline bool isDg(char C) { return C >= '0' && C <= '9'; }

inline std::optional<StepRef> readStep(const std::string &T) {
  size_t I = 0;
  struct Opd { bool V; std::string N; double D; };
  auto Skip = [&] { while (I < T.size() && isSp(T[I])) { ++I; } };
  auto Operand = [&]() -> std::optional<Opd> {
    Skip();
    if (I >= T.size()) { return std::nullopt; }
    size_t J = I;
    if (isAl(T[I])) {
      while (J < T.size() && (isAl(T[J]) || isDg(T[J]) || T[J] == '_')) { ++J; }
      Opd O{true, T.substr(I, J - I), 0};
      I = J;
      return O;
    }
    int Dots = 0, Digits = 0;
    while (J < T.size() && (isDg(T[J]) || T[J] == '.')) {
      (T[J] == '.' ? Dots : Digits)++;
      ++J;
    }
    if (!Digits || Dots > 1) { return std::nullopt; }
    Opd O{false, "", std::strtod(T.substr(I, J - I).c_str(), nullptr)};
    I = J;
    return O;
  };
  auto A = Operand();
  if (!A) { return std::nullopt; }
  Skip();
  if (I >= T.size() || (T[I] != '+' && T[I] != '*' && T[I] != '^')) { return std::nullopt; }
  char Op = T[I++];
  auto B = Operand();
  if (!B) { return std::nullopt; }
  Skip();
  if (I != T.size() || A->V == B->V) { return std::nullopt; }
  return A->V ? StepRef{true, Op, B->D, A->N} : StepRef{false, Op, A->D, B->N};
}

inline double stepValue(const StepRef &F, double X) {
  double A = F.Left ? X : F.Num, B = F.Left ? F.Num : X;
  return F.Op == '+' ? A + B : F.Op == '*' ? A * B : std::pow(A, B);
}


} // namespace vf
#endif
