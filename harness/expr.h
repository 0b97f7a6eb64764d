// Reference model of constraints: syntax tree, meaning, printer and parser,
// written from the documented language and independent of the library.
#ifndef VERIF_EXPR_H
#define VERIF_EXPR_H

#include "common.h"
#include "vara/Feature/Constraint.h"
#include "vara/Feature/ConstraintBuilder.h"
#include "vara/Feature/ConstraintParser.h"
#include "vara/Feature/Feature.h"

namespace vf {

enum class Op {
  Feat, Int, Not, Neg,
  Mul, Div, Add, Sub, Lt, Gt, Le, Ge, Eq, Ne, And, Or, Xor, Imp, Excl, Eqv
};

struct Expr;
using E = std::shared_ptr<const Expr>;
struct Expr {
  Op O;
  std::string Name;
  int64_t V = 0;
  E L, R;
};

inline E feat(const std::string &N) { return std::make_shared<Expr>(Expr{Op::Feat, N, 0, nullptr, nullptr}); }
inline E num(int64_t V) { return std::make_shared<Expr>(Expr{Op::Int, "", V, nullptr, nullptr}); }
inline E un(Op O, E L) { return std::make_shared<Expr>(Expr{O, "", 0, std::move(L), nullptr}); }
inline E bin(Op O, E L, E R) { return std::make_shared<Expr>(Expr{O, "", 0, std::move(L), std::move(R)}); }

inline bool isUn(Op O) { return O == Op::Not || O == Op::Neg; }
inline bool isPrim(Op O) { return O == Op::Feat || O == Op::Int; }
inline bool isBin(Op O) { return !isUn(O) && !isPrim(O); }

inline const char *opName(Op O) {
  switch (O) {
  case Op::Feat: return "feat";
  case Op::Int: return "int";
  case Op::Not: return "!";
  case Op::Neg: return "~";
  case Op::Mul: return "*";
  case Op::Div: return "/";
  case Op::Add: return "+";
  case Op::Sub: return "-";
  case Op::Lt: return "<";
  case Op::Gt: return ">";
  case Op::Le: return "<=";
  case Op::Ge: return ">=";
  case Op::Eq: return "=";
  case Op::Ne: return "!=";
  case Op::And: return "&";
  case Op::Or: return "|";
  case Op::Xor: return "^";
  case Op::Imp: return "=>";
  case Op::Excl: return "excl";
  case Op::Eqv: return "<=>";
  }
  return "?";
}

// binding strength: smaller binds tighter
inline int prec(Op O) {
  switch (O) {
  case Op::Feat: case Op::Int: case Op::Not: case Op::Neg: return 0;
  case Op::Mul: case Op::Div: return 1;
  case Op::Add: case Op::Sub: return 2;
  case Op::Lt: case Op::Gt: case Op::Le: case Op::Ge: return 3;
  case Op::Eq: case Op::Ne: return 4;
  case Op::And: return 5;
  case Op::Or: case Op::Xor: return 6;
  case Op::Imp: case Op::Excl: return 7;
  case Op::Eqv: return 8;
  }
  return 0;
}

inline std::string sexp(const E &X) {
  if (!X) {
    return "nil";
  }
  if (X->O == Op::Feat) {
    return X->Name;
  }
  if (X->O == Op::Int) {
    return std::to_string(X->V);
  }
  std::string S = std::string("(") + opName(X->O) + " " + sexp(X->L);
  if (X->R) {
    S += " " + sexp(X->R);
  }
  return S + ")";
}

// A excludes B  ==  A => !B : the textual language has no own operator
inline E normExcl(const E &X) {
  if (!X || isPrim(X->O)) {
    return X;
  }
  E L = normExcl(X->L), R = normExcl(X->R);
  if (X->O == Op::Excl) {
    return bin(Op::Imp, L, un(Op::Not, R));
  }
  return std::make_shared<Expr>(Expr{X->O, "", 0, L, R});
}

inline void feats(const E &X, std::set<std::string> &Out) {
  if (!X) {
    return;
  }
  if (X->O == Op::Feat) {
    Out.insert(X->Name);
  }
  feats(X->L, Out);
  feats(X->R, Out);
}

inline size_t nodes(const E &X) { return X ? 1 + nodes(X->L) + nodes(X->R) : 0; }

// Meaning.  Booleans are 0 / 1.  The caller keeps values small enough for
// __int128.
using Env = std::map<std::string, int64_t>;
inline __int128 evalE(const E &X, const Env &En) {
  switch (X->O) {
  case Op::Feat: return En.at(X->Name);
  case Op::Int: return X->V;
  case Op::Not: return evalE(X->L, En) == 0 ? 1 : 0;
  case Op::Neg: return -evalE(X->L, En);
  default: break;
  }
  __int128 A = evalE(X->L, En), B = evalE(X->R, En);
  switch (X->O) {
  case Op::Mul: return A * B;
  case Op::Add: return A + B;
  case Op::Sub: return A - B;
  case Op::Lt: return A < B;
  case Op::Gt: return A > B;
  case Op::Le: return A <= B;
  case Op::Ge: return A >= B;
  case Op::Eq: return A == B;
  case Op::Ne: return A != B;
  case Op::And: return (A != 0) && (B != 0);
  case Op::Or: return (A != 0) || (B != 0);
  case Op::Xor: return (A != 0) != (B != 0);
  case Op::Imp: return (A == 0) || (B != 0);
  case Op::Excl: return (A == 0) || (B == 0);
  case Op::Eqv: return (A != 0) == (B != 0);
  default: return 0;
  }
}

//===-------------------------------------------------------------------===//
// library constraint <-> Expr (public API only)

namespace vfe = vara::feature;

inline E fromLib(vfe::Constraint *C) {
  using K = vfe::Constraint::ConstraintKind;
  if (!C) {
    return nullptr;
  }
  auto Bin = [&](Op O) {
    auto *B = static_cast<vfe::BinaryConstraint *>(C);
    return bin(O, fromLib(B->getLeftOperand()), fromLib(B->getRightOperand()));
  };
  switch (C->getKind()) {
  case K::CK_ADDITION: return Bin(Op::Add);
  case K::CK_AND: return Bin(Op::And);
  case K::CK_DIVISION: return Bin(Op::Div);
  case K::CK_EQUAL: return Bin(Op::Eq);
  case K::CK_EQUIVALENCE: return Bin(Op::Eqv);
  case K::CK_EXCLUDES: return Bin(Op::Excl);
  case K::CK_GREATER: return Bin(Op::Gt);
  case K::CK_GREATER_EQUAL: return Bin(Op::Ge);
  case K::CK_IMPLIES: return Bin(Op::Imp);
  case K::CK_LESS: return Bin(Op::Lt);
  case K::CK_LESS_EQUAL: return Bin(Op::Le);
  case K::CK_MULTIPLICATION: return Bin(Op::Mul);
  case K::CK_NOT_EQUAL: return Bin(Op::Ne);
  case K::CK_OR: return Bin(Op::Or);
  case K::CK_SUBTRACTION: return Bin(Op::Sub);
  case K::CK_XOR: return Bin(Op::Xor);
  case K::CK_NOT:
    return un(Op::Not, fromLib(static_cast<vfe::UnaryConstraint *>(C)->getOperand()));
  case K::CK_NEG:
    return un(Op::Neg, fromLib(static_cast<vfe::UnaryConstraint *>(C)->getOperand()));
  case K::CK_FEATURE: {
    auto *F = static_cast<vfe::PrimaryFeatureConstraint *>(C)->getFeature();
    return feat(F ? F->getName().str() : "<null feature>");
  }
  case K::CK_INTEGER:
    return num(static_cast<vfe::PrimaryIntegerConstraint *>(C)->getValue());
  default: return feat("<unknown kind>");
  }
}

inline std::unique_ptr<vfe::Constraint> toLib(const E &X) {
  auto L = [&] { return toLib(X->L); };
  auto R = [&] { return toLib(X->R); };
  switch (X->O) {
  case Op::Feat:
    return std::make_unique<vfe::PrimaryFeatureConstraint>(
        std::make_unique<vfe::Feature>(X->Name));
  case Op::Int: return std::make_unique<vfe::PrimaryIntegerConstraint>(X->V);
  case Op::Not: return std::make_unique<vfe::NotConstraint>(L());
  case Op::Neg: return std::make_unique<vfe::NegConstraint>(L());
  case Op::Mul: return std::make_unique<vfe::MultiplicationConstraint>(L(), R());
  case Op::Div: return std::make_unique<vfe::DivisionConstraint>(L(), R());
  case Op::Add: return std::make_unique<vfe::AdditionConstraint>(L(), R());
  case Op::Sub: return std::make_unique<vfe::SubtractionConstraint>(L(), R());
  case Op::Lt: return std::make_unique<vfe::LessConstraint>(L(), R());
  case Op::Gt: return std::make_unique<vfe::GreaterConstraint>(L(), R());
  case Op::Le: return std::make_unique<vfe::LessEqualConstraint>(L(), R());
  case Op::Ge: return std::make_unique<vfe::GreaterEqualConstraint>(L(), R());
  case Op::Eq: return std::make_unique<vfe::EqualConstraint>(L(), R());
  case Op::Ne: return std::make_unique<vfe::NotEqualConstraint>(L(), R());
  case Op::And: return std::make_unique<vfe::AndConstraint>(L(), R());
  case Op::Or: return std::make_unique<vfe::OrConstraint>(L(), R());
  case Op::Xor: return std::make_unique<vfe::XorConstraint>(L(), R());
  case Op::Imp: return std::make_unique<vfe::ImpliesConstraint>(L(), R());
  case Op::Excl: return std::make_unique<vfe::ExcludesConstraint>(L(), R());
  case Op::Eqv: return std::make_unique<vfe::EquivalenceConstraint>(L(), R());
  }
  return nullptr;
}

// Every operand's parent is its enclosing expression; the root is reached
// from everywhere.  Returns a description of the first problem.
inline std::string linkProblem(vfe::Constraint *C, vfe::Constraint *Parent,
                               vfe::Constraint *Root) {
  if (!C) {
    return "null operand";
  }
  if (C->getParent() != Parent) {
    return "wrong parent of " + C->toString();
  }
  if (C->getRoot() != Root) {
    return "wrong root of " + C->toString();
  }
  if (auto *B = llvm::dyn_cast<vfe::PrimaryFeatureConstraint>(C)) {
    return B->getFeature() ? "" : "operand without feature";
  }
  if (llvm::isa<vfe::PrimaryIntegerConstraint>(C)) {
    return "";
  }
  if (C->getKind() == vfe::Constraint::ConstraintKind::CK_NOT ||
      C->getKind() == vfe::Constraint::ConstraintKind::CK_NEG) {
    return linkProblem(static_cast<vfe::UnaryConstraint *>(C)->getOperand(), C, Root);
  }
  auto *B = static_cast<vfe::BinaryConstraint *>(C);
  auto S = linkProblem(B->getLeftOperand(), C, Root);
  return S.empty() ? linkProblem(B->getRightOperand(), C, Root) : S;
}

inline void collectNodes(vfe::Constraint *C, std::set<const void *> &Out) {
  Out.insert(C);
  if (auto *F = llvm::dyn_cast<vfe::PrimaryFeatureConstraint>(C)) {
    Out.insert(F->getFeature());
    return;
  }
  if (llvm::isa<vfe::PrimaryIntegerConstraint>(C)) {
    return;
  }
  if (C->getKind() == vfe::Constraint::ConstraintKind::CK_NOT ||
      C->getKind() == vfe::Constraint::ConstraintKind::CK_NEG) {
    collectNodes(static_cast<vfe::UnaryConstraint *>(C)->getOperand(), Out);
    return;
  }
  auto *B = static_cast<vfe::BinaryConstraint *>(C);
  collectNodes(B->getLeftOperand(), Out);
  collectNodes(B->getRightOperand(), Out);
}

//===-------------------------------------------------------------------===//
// random expressions

// any operator anywhere (syntax only)
inline E genAny(Rng &R, int Depth, const std::vector<std::string> &Names,
                bool Textual, bool BigInts = true) {
  if (Depth <= 0 || R.chance(18)) {
    if (R.chance(72)) {
      return feat(R.pick(Names));
    }
    switch (R.below(BigInts ? 8 : 3)) {
    case 0: return num(0);
    case 1: return num(R.range(0, 9));
    case 2: return num(R.range(10, 1000));
    case 3: return num(INT64_MAX);
    case 4: return num(R.range(INT64_MAX - 20, INT64_MAX));
    case 5: return num(static_cast<int64_t>(R.next() >> R.range(1, 60)));
    case 6: return num(INT64_C(1) << R.range(30, 62));
    default: return num(R.range(0, 99999));
    }
  }
  static const std::vector<Op> Ops = {
      Op::Mul, Op::Add, Op::Sub, Op::Lt, Op::Gt, Op::Le, Op::Ge, Op::Eq,
      Op::Ne, Op::And, Op::Or, Op::Imp, Op::Eqv, Op::Not, Op::Neg};
  static const std::vector<Op> More = {Op::Div, Op::Xor, Op::Excl};
  Op O = (!Textual && R.chance(20)) ? R.pick(More) : R.pick(Ops);
  if (isUn(O)) {
    return un(O, genAny(R, Depth - 1, Names, Textual, BigInts));
  }
  return bin(O, genAny(R, Depth - 1, Names, Textual, BigInts),
             genAny(R, Depth - 1, Names, Textual, BigInts));
}

E genNum(Rng &R, int Depth, const std::vector<std::string> &Nums, bool Textual);

// well typed boolean expression
inline E genBool(Rng &R, int Depth, const std::vector<std::string> &Bools,
                 const std::vector<std::string> &Nums, bool Textual) {
  if (Bools.empty() && Nums.empty()) {
    return bin(Op::Eq, num(1), num(R.below(2)));
  }
  if (Depth <= 0 || R.chance(15)) {
    if (!Bools.empty() && (Nums.empty() || R.chance(70))) {
      return feat(R.pick(Bools));
    }
    Depth = 1;
  }
  if (Bools.empty() || (!Nums.empty() && R.chance(30))) {
    static const std::vector<Op> Cmp = {Op::Lt, Op::Gt, Op::Le,
                                        Op::Ge, Op::Eq, Op::Ne};
    return bin(R.pick(Cmp), genNum(R, Depth - 1, Nums, Textual),
               genNum(R, Depth - 1, Nums, Textual));
  }
  static const std::vector<Op> Ops = {Op::And, Op::Or,  Op::Imp, Op::Eqv,
                                      Op::Not, Op::Not, Op::Or,  Op::And};
  static const std::vector<Op> More = {Op::Xor, Op::Excl};
  Op O = (!Textual && R.chance(25)) ? R.pick(More) : R.pick(Ops);
  if (O == Op::Not) {
    return un(O, genBool(R, Depth - 1, Bools, Nums, Textual));
  }
  return bin(O, genBool(R, Depth - 1, Bools, Nums, Textual),
             genBool(R, Depth - 1, Bools, Nums, Textual));
}

inline E genNum(Rng &R, int Depth, const std::vector<std::string> &Nums,
                bool Textual) {
  if (Depth <= 0 || R.chance(30)) {
    if (!Nums.empty() && R.chance(70)) {
      return feat(R.pick(Nums));
    }
    return num(R.range(0, 12));
  }
  switch (R.below(8)) {
  case 0: return un(Op::Neg, genNum(R, Depth - 1, Nums, Textual));
  case 1:
  case 2:
    return bin(Op::Mul, genNum(R, Depth - 1, Nums, Textual),
               R.chance(60) ? num(R.range(0, 5)) : genNum(R, 0, Nums, Textual));
  case 3:
  case 4:
  case 5:
    return bin(Op::Add, genNum(R, Depth - 1, Nums, Textual),
               genNum(R, Depth - 1, Nums, Textual));
  default:
    return bin(Op::Sub, genNum(R, Depth - 1, Nums, Textual),
               genNum(R, Depth - 1, Nums, Textual));
  }
}

//===-------------------------------------------------------------------===//
// printing with arbitrary spacing, spelling and parentheses

struct Spell {
  Rng *R = nullptr; // null: canonical
  bool Tight = false;
  int Extra = 0; // percent of redundant parentheses
  bool Sci = false;
};

inline std::string ws(const Spell &S, bool Need = false) {
  if (!S.R) {
    return " ";
  }
  if (S.Tight) {
    return Need ? " " : "";
  }
  static const std::vector<std::string> W = {"", " ", " ", "  ", "\t", "\n", " \r\n ", ""};
  auto X = S.R->pick(W);
  return (Need && X.empty()) ? " " : X;
}

inline std::string intText(int64_t V, const Spell &S) {
  std::string T = std::to_string(V);
  if (S.R && S.Sci && V > 0 && V % 10 == 0 && V < 1000000000 && S.R->chance(50)) {
    int Z = 0;
    while (V % 10 == 0 && S.R->chance(75)) {
      V /= 10;
      ++Z;
    }
    if (Z) {
      T = std::to_string(V) + (S.R->chance(50) ? "e" : "E") +
          (S.R->chance(30) ? "+" : "") + std::to_string(Z);
    }
  }
  return T;
}

inline std::string text(const E &X, const Spell &S, int Outer = 9, bool RightSide = false) {
  std::string T;
  if (X->O == Op::Feat) {
    T = X->Name;
  } else if (X->O == Op::Int) {
    T = intText(X->V, S);
  } else if (isUn(X->O)) {
    T = std::string(opName(X->O)) + (S.R ? ws(S) : "") + text(X->L, S, 0);
  } else {
    int P = prec(X->O);
    std::string O = opName(X->O);
    bool Word = false;
    Op Kind = X->O;
    E Rhs = X->R;
    if (Kind == Op::Excl) {
      O = "=>";
      Rhs = un(Op::Not, X->R);
    }
    if (S.R && Kind == Op::Or && S.R->chance(30)) {
      O = "or";
      Word = true;
    }
    if (S.R && (Kind == Op::Imp || Kind == Op::Excl) && S.R->chance(50)) {
      O = "->";
    }
    if (S.R && Kind == Op::Eqv && S.R->chance(50)) {
      O = "<->";
    }
    // left grouping: a left operand of the same level needs no parentheses
    T = text(X->L, S, P, false) + ws(S, Word) + O + ws(S, Word) +
        text(Rhs, S, P, true);
    if (P > Outer || (P == Outer && RightSide)) {
      return "(" + (S.R ? ws(S) : "") + T + (S.R ? ws(S) : "") + ")";
    }
  }
  if (S.R && S.Extra && S.R->chance(S.Extra)) {
    return "(" + ws(S) + T + ws(S) + ")";
  }
  return T;
}

//===-------------------------------------------------------------------===//
// reference parser: own tokenizer, operator-precedence with explicit stacks

struct RefParser {
  struct Tok {
    char K; // 'i' ident, 'n' number, 'o' operator, '(' , ')', 'u' unary
    std::string S;
    Op O = Op::Int;
  };
  static bool lex(const std::string &T, std::vector<Tok> &Out) {
    size_t I = 0;
    auto Al = [](char C) { return (C >= 'a' && C <= 'z') || (C >= 'A' && C <= 'Z'); };
    auto Dg = [](char C) { return C >= '0' && C <= '9'; };
    auto Starts = [&](const char *P) { return T.compare(I, std::strlen(P), P) == 0; };
    while (I < T.size()) {
      char C = T[I];
      if (C == ' ' || C == '\t' || C == '\r' || C == '\n') {
        ++I;
        continue;
      }
      if (Al(C)) {
        size_t J = I;
        while (J < T.size() && (Al(T[J]) || Dg(T[J]) || T[J] == '_')) {
          ++J;
        }
        auto W = T.substr(I, J - I);
        if (W == "or") {
          Out.push_back({'o', W, Op::Or});
        } else {
          Out.push_back({'i', W});
        }
        I = J;
        continue;
      }
      if (Dg(C)) {
        size_t J = I;
        while (J < T.size() && Dg(T[J])) {
          ++J;
        }
        if (J < T.size() && (T[J] == 'e' || T[J] == 'E')) {
          size_t K = J + 1;
          if (K < T.size() && (T[K] == '+' || T[K] == '-')) {
            ++K;
          }
          if (K < T.size() && Dg(T[K])) {
            while (K < T.size() && Dg(T[K])) {
              ++K;
            }
            J = K;
          }
        }
        Out.push_back({'n', T.substr(I, J - I)});
        I = J;
        continue;
      }
      static const std::vector<std::pair<const char *, Op>> Ops = {
          {"<->", Op::Eqv}, {"<=>", Op::Eqv}, {"->", Op::Imp}, {"=>", Op::Imp},
          {"<=", Op::Le},   {">=", Op::Ge},   {"!=", Op::Ne},  {"<", Op::Lt},
          {">", Op::Gt},    {"=", Op::Eq},    {"&", Op::And},  {"|", Op::Or},
          {"+", Op::Add},   {"-", Op::Sub},   {"*", Op::Mul}};
      bool Hit = false;
      for (auto &P : Ops) {
        if (Starts(P.first)) {
          Out.push_back({'o', P.first, P.second});
          I += std::strlen(P.first);
          Hit = true;
          break;
        }
      }
      if (Hit) {
        continue;
      }
      if (C == '!' || C == '~') {
        Out.push_back({'u', std::string(1, C), C == '!' ? Op::Not : Op::Neg});
      } else if (C == '(' || C == ')') {
        Out.push_back({C, std::string(1, C)});
      } else {
        return false;
      }
      ++I;
    }
    return true;
  }
  // value of an integer literal; nullopt if it is not checked exactly
  // (out of range or fractional exponents are implementation defined)
  static std::optional<int64_t> lit(const std::string &S) {
    size_t Ex = S.find_first_of("eE");
    std::string Man = S.substr(0, Ex);
    long Z = 0;
    if (Ex != std::string::npos) {
      std::string X = S.substr(Ex + 1);
      if (X[0] == '-') {
        return std::nullopt;
      }
      if (X[0] == '+') {
        X = X.substr(1);
      }
      if (X.size() > 3) {
        return std::nullopt;
      }
      Z = std::strtol(X.c_str(), nullptr, 10);
    }
    unsigned __int128 V = 0;
    __int128 Max = Ex == std::string::npos ? (__int128)INT64_MAX : ((__int128)1 << 53);
    for (char C : Man) {
      V = V * 10 + (C - '0');
      if ((__int128)V > Max) {
        return std::nullopt;
      }
    }
    for (long K = 0; K < Z && V; ++K) {
      V *= 10;
      if ((__int128)V > Max) {
        return std::nullopt;
      }
    }
    return static_cast<int64_t>(V);
  }
  // nullptr: malformed.  Exact is cleared if a literal has no exact value.
  static E parse(const std::string &T, bool &Exact) {
    std::vector<Tok> Ts;
    if (!lex(T, Ts) || Ts.empty()) {
      return nullptr;
    }
    std::vector<E> Vals;
    struct Ent { char K; Op O; };
    std::vector<Ent> Ops;
    auto Reduce = [&]() {
      auto X = Ops.back();
      Ops.pop_back();
      if (X.K == 'u') {
        auto A = Vals.back();
        Vals.pop_back();
        Vals.push_back(un(X.O, A));
      } else {
        auto B = Vals.back();
        Vals.pop_back();
        auto A = Vals.back();
        Vals.pop_back();
        Vals.push_back(bin(X.O, A, B));
      }
    };
    bool WantOperand = true;
    for (auto &K : Ts) {
      if (WantOperand) {
        if (K.K == 'i') {
          Vals.push_back(feat(K.S));
          WantOperand = false;
        } else if (K.K == 'n') {
          auto V = lit(K.S);
          if (!V) {
            Exact = false;
          }
          Vals.push_back(num(V.value_or(0)));
          WantOperand = false;
        } else if (K.K == 'u') {
          Ops.push_back({'u', K.O});
        } else if (K.K == '(') {
          Ops.push_back({'(', Op::Int});
        } else {
          return nullptr;
        }
      } else {
        if (K.K == ')') {
          while (!Ops.empty() && Ops.back().K != '(') {
            Reduce();
          }
          if (Ops.empty()) {
            return nullptr;
          }
          Ops.pop_back();
        } else if (K.K == 'o') {
          while (!Ops.empty() && Ops.back().K != '(' &&
                 (Ops.back().K == 'u' || prec(Ops.back().O) <= prec(K.O))) {
            Reduce();
          }
          Ops.push_back({'o', K.O});
          WantOperand = true;
        } else {
          return nullptr;
        }
      }
    }
    if (WantOperand) {
      return nullptr;
    }
    while (!Ops.empty()) {
      if (Ops.back().K == '(') {
        return nullptr;
      }
      Reduce();
    }
    return Vals.size() == 1 ? Vals[0] : nullptr;
  }
};

// Some features with names that stress lexing: prefixes of one another,
// containing keywords, single letters, very long.
// Twins: some names differ from others in case only
inline std::vector<std::string> genNames(Rng &R, size_t N, bool Twins = false) {
  static const std::vector<std::string> Pool = {
      "A", "B", "C", "AB", "A1", "A_1", "A_1_x", "Or", "OR", "or1", "orange", "nor", "Or_x",
      "e", "E2", "e3", "x", "foo", "foo_bar", "FooBar2", "true1", "z9", "T",
      "b1", "ABC", "lzma", "Compress", "Decompress", "g_4", "Node1"};
  std::vector<std::string> Out;
  std::set<std::string> Low;
  auto Lower = [](std::string S) {
    for (auto &C : S) {
      C = static_cast<char>(std::tolower(static_cast<unsigned char>(C)));
    }
    return S;
  };
  while (Out.size() < N) {
    std::string S;
    if (Twins && !Out.empty() && R.chance(50)) {
      S = R.pick(Out);
      size_t I = R.below(S.size());
      auto Ch = static_cast<unsigned char>(S[I]);
      S[I] = static_cast<char>(std::islower(Ch) ? std::toupper(Ch) : std::tolower(Ch));
      if (S != "or" && std::find(Out.begin(), Out.end(), S) == Out.end()) {
        Out.push_back(S);
        continue;
      }
      S = R.pick(Pool);
    } else if (R.chance(60)) {
      S = R.pick(Pool);
    } else {
      static const std::string First =
          "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
      static const std::string Rest = First + "0123456789_";
      S = First[R.below(First.size())];
      size_t L = R.chance(5) ? R.below(60) : R.below(7);
      while (L--) {
        S += Rest[R.below(Rest.size())];
      }
    }
    // "or" is an operator; "root"/"base" name the root in XML
    auto Lw = Lower(S);
    if (S == "or" || Lw == "root" || Lw == "base" || !Low.insert(Lw).second) {
      if (Low.size() + 4 > Pool.size() && R.chance(20)) {
        S += std::to_string(R.below(100000));
      }
      continue;
    }
    Out.push_back(S);
  }
  return Out;
}

} // namespace vf

#endif
