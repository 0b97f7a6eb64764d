// C06: constraint text -> expression, against an independent reference parser.
#include "expr.h"
using namespace vf;

static std::unique_ptr<vfe::Constraint> parseLib(const std::string &T) {
  return vfe::ConstraintParser(T).buildConstraint();
}

static void compare(Ctx &C, const std::string &T) {
  C.say("text: " + T);
  bool Exact = true;
  E Want = RefParser::parse(T, Exact);
  auto Got = parseLib(T);
  C.note(Want ? "accepted" : "rejected");
  if (!Want) {
    C.check(!Got, "accepts-malformed",
            "malformed text accepted as " + (Got ? Got->toString() : ""));
    return;
  }
  if (!C.check(Got != nullptr, "rejects-wellformed", "well-formed text rejected; want " + sexp(Want))) {
    return;
  }
  auto P = linkProblem(Got.get(), nullptr, Got.get());
  C.check(P.empty(), "links", P);
  if (Exact) {
    C.eq(sexp(fromLib(Got.get())), sexp(Want), "wrong-tree", "parsed expression");
  } else {
    C.note("inexact_literal");
  }
}

static void run(Ctx &C) {
  auto &R = C.R;
  auto Names = genNames(R, 1 + R.below(5));
  switch (R.below(10)) {
  case 0:
  case 1:
  case 2:
  case 3: { // a tree spelled in an arbitrary way
    int Depth = static_cast<int>(R.below(R.chance(10) ? 9 : 6));
    E X = genAny(R, Depth, Names, true);
    Spell S{&R, R.chance(25), R.chance(50) ? 0 : static_cast<int>(R.below(40)), R.chance(50)};
    auto T = ws(S) + text(X, S) + ws(S);
    C.say("tree: " + sexp(X) + "\ntext: " + T);
    auto Got = parseLib(T);
    C.note("trees");
    C.note("nodes", nodes(X));
    if (nodes(X) > 2) {
      C.distinct(sexp(X));
      C.sample(T);
    }
    if (!C.check(Got != nullptr, "rejects-wellformed", "well-formed text rejected")) {
      return;
    }
    C.eq(sexp(fromLib(Got.get())), sexp(X), "wrong-tree", "parsed expression");
    auto P = linkProblem(Got.get(), nullptr, Got.get());
    C.check(P.empty(), "links", P);
    // also proves that generator and reference agree
    bool Exact = true;
    E Ref = RefParser::parse(T, Exact);
    C.check(Ref && (!Exact || sexp(Ref) == sexp(X)), "internal", "reference parser disagrees with generator on " + T);
    return;
  }
  case 4:
  case 5:
  case 6: { // token soup: mostly malformed
    static const std::vector<std::string> Toks = {
        "(", ")", "!", "~", "&", "|", "=>", "->", "<=>", "<->", "<", "<=", ">",
        ">=", "=", "!=", "+", "-", "*", "or", " ", "\t", "\n", "1", "0", "42",
        "1e3", "2E+2", "7e", "9223372036854775807", "9223372036854775808",
        "1e-1", "e5", "_", "/", "^", "%", ".", "#", "a1", "A_b", "12ab"};
    std::string T;
    size_t N = R.below(12);
    while (N--) {
      T += R.chance(35) ? R.pick(Names) : R.pick(Toks);
      if (R.chance(30)) {
        T += " ";
      }
    }
    C.distinct(T);
    compare(C, T);
    return;
  }
  case 7:
  case 8: { // a well-formed text with one damage
    E X = genAny(R, 1 + static_cast<int>(R.below(5)), Names, true);
    Spell S{&R, R.chance(30), 15, true};
    auto T = text(X, S);
    static const std::string Ins = "()!~&|=<>+-* \t01eE_aZ/^.,;\"'";
    size_t K = 1 + R.below(2);
    while (K--) {
      size_t P = R.below(T.size() + 1);
      switch (R.below(4)) {
      case 0:
        if (P < T.size()) {
          T.erase(P, 1 + R.below(2));
        }
        break;
      case 1:
        T.insert(P, 1, Ins[R.below(Ins.size())]);
        break;
      case 2:
        if (P < T.size()) {
          T[P] = Ins[R.below(Ins.size())];
        }
        break;
      default:
        T = R.chance(50) ? T.substr(0, P) : T.substr(P);
      }
    }
    C.distinct(T);
    compare(C, T);
    return;
  }
  default: { // arbitrary bytes: must terminate without crash
    std::string T;
    size_t N = R.below(R.chance(10) ? 1500 : 60);
    while (N--) {
      T += static_cast<char>(R.chance(50) ? R.below(256) : "()!~&|=<>A1 "[R.below(12)]);
    }
    if (R.chance(10)) { // deep but bounded nesting
      size_t D = 1 + R.below(300);
      T = std::string(D, R.chance(50) ? '(' : '!') + "A" + std::string(R.below(D + 2), ')');
    }
    C.distinct(T);
    C.say("bytes: " + show(T));
    C.note("bytes");
    if (T.find('\0') != std::string::npos || T.find('\xff') != std::string::npos) {
      // these end the text; only robustness is specified
      auto Got = parseLib(T);
      C.note(Got ? "bytes_accepted" : "bytes_rejected");
      return;
    }
    compare(C, T);
  }
  }
}

#define PROBE(NAME, TEXT)                                                      \
  {NAME, [](Ctx &C) { compare(C, TEXT); }}

int main(int argc, char **argv) {
  return harnessMain(
      argc, argv, run,
      {PROBE("empty-text", ""), PROBE("blank-text", " \t\n"),
       PROBE("digits-plus", "1+2"), PROBE("digits-minus", "A-3-1 > 2-1"),
       PROBE("sci", "A = 1e3"), PROBE("sci-incomplete", "A = 1e"),
       PROBE("e-name", "A = 12e"),
       {"deep-nesting", [](Ctx &C) {
          compare(C, std::string(100000, '(') + "A" + std::string(100000, ')'));
        }}});
}
