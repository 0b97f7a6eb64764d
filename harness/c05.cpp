// C05: malformed SXFM is refused cleanly, never half-loaded.
#include "sxfm.h"
using namespace vf;

namespace {
void judge(Ctx &C, const std::string &T) {
  C.say(T);
  Model Want;
  std::string Why;
  auto V = readSxfm(T, Want, Why);
  bool Ok = static_cast<bool>(vfe::FeatureModelSxfmParser(T).verifyFeatureModel());
  auto L = vfe::FeatureModelSxfmParser(T).buildFeatureModel();
  C.check(Ok || !L, "unverified", "loaded although it does not verify");
  bool Grammar = Why == "not well-formed" || Why == "outermost element" || Why.rfind("structure", 0) == 0 || Why == "grammar";
  if (V == Verdict::Refuse) {
    C.note("refuse_" + Why.substr(0, Why.find(Why.rfind("unknown", 0) == 0 || Why.find(':') == std::string::npos ? ' ' : ':')));
    C.eq(Ok, !Grammar, "verify", "verification (" + Why + ")");
    C.check(!L, "accepts", "loaded although to be refused: " + Why);
  } else if (V == Verdict::Load) {
    C.note("valid");
    C.check(Ok, "verify", "valid document does not verify");
    if (C.check(L != nullptr, "refuses", "valid document refused")) {
      auto Got = sound(C, *L, "loaded model");
      Got.Path = Want.Path;
      sameModel(C, Got, Want, "content", "loaded model differs");
    }
  } else {
    C.note(L ? "open_loaded" : "open_refused");
    if (L) {
      sound(C, *L, "loaded model");
    }
  }
}

void damageLine(Rng &R, SxfmDoc &D) {
  auto &Ls = D.Lines;
  size_t I = R.below(Ls.size());
  auto &L = Ls[I];
  auto At = std::min(L.find(':'), L.size());
  static const std::vector<std::string> Cards = {"[1,1]", "[1,*]", "[0,1]",   "[1,2]",  "[*,1]", "[1]",  "[]",   "[1,",
                                                 "[,]",   "[a,b]", "[1, 1]",  "[1,1",   "1,1]",  "[01,1]", "[-1,1]", "[2,*]",
                                                 "[1,99999999999999999999]"};
  switch (R.below(16)) {
  case 0: L.insert(0, D.Indent); break;
  case 1: L.insert(0, D.Indent + D.Indent); break;
  case 2:
    if (L.compare(0, D.Indent.size(), D.Indent) == 0) {
      L.erase(0, D.Indent.size());
    }
    break;
  case 3: L.insert(R.below(At + 1), R.chance(50) ? " " : "\t"); break;
  case 4:
    if (At < L.size()) {
      L.erase(At, 1);
    }
    break;
  case 5:
    if (At + 1 < L.size()) {
      L.erase(At + 1, 1);
    }
    break;
  case 6:
    if (At + 1 < L.size()) {
      static const std::string Ty = "rmog abx:[(1\t";
      L[At + 1] = Ty[R.below(Ty.size())];
    }
    break;
  case 7: L.resize(R.below(L.size() + 1)); break;
  case 8: Ls.push_back(L); break;
  case 9: Ls.insert(Ls.begin() + static_cast<long>(I), Ls[R.below(Ls.size())]); break;
  case 10: Ls.erase(Ls.begin() + static_cast<long>(I)); break;
  case 11: std::swap(L, Ls[R.below(Ls.size())]); break;
  case 12: {
    auto O = L.find('[');
    auto E = L.find(']');
    if (O != std::string::npos && E != std::string::npos && O < E) {
      L.replace(O, E - O + 1, R.pick(Cards));
    } else {
      L += " " + R.pick(Cards);
    }
    break;
  }
  case 13: L.insert(R.below(L.size() + 1), R.pick(Cards)); break;
  case 14: L.insert(R.below(L.size() + 1), std::string(1, ":()[]~ \t,rg*"[R.below(12)])); break;
  default:
    if (!L.empty()) {
      L.erase(R.below(L.size()), 1);
    }
  }
}
void damageConstraint(Rng &R, SxfmDoc &D) {
  auto &Cs = D.Cons;
  if (Cs.empty() || R.chance(10)) {
    static const std::vector<std::string> X = {"",      ":",     "c",       "c:",        "c: or",   "c: missing", "c: ~",
                                               "c: a b", "c:1",  "c:()",    "c: root or", "c: and", "c:~~~root",  "c:\troot\tor root",
                                               "c: root or root : root", "c: 99999999999999999999 = 1", "c:root and"};
    Cs.push_back(R.pick(X));
    return;
  }
  auto &L = R.pick(Cs);
  switch (R.below(7)) {
  case 0: L.resize(R.below(L.size() + 1)); break;
  case 1: L.insert(R.below(L.size() + 1), std::string(1, ":()~|& \tx1!"[R.below(11)])); break;
  case 2:
    if (!L.empty()) {
      L.erase(R.below(L.size()), 1);
    }
    break;
  case 3: L += R.chance(50) ? " or" : " or unknownfeature"; break;
  case 4: {
    auto A = L.find(" or ");
    if (A != std::string::npos) {
      static const std::vector<std::string> X = {" ", "or", " or or ", " OR ", "  ", " and ", "\tor\t", " ~ ", " oror "};
      L.replace(A, 4, R.pick(X));
    }
    break;
  }
  case 5: Cs.push_back(L); break;
  default: L += R.pick(Cs);
  }
}
void damageText(Rng &R, std::string &T) {
  static const std::vector<std::string> Dict = {"<feature_tree>", "</feature_tree>", "<constraints>", "</constraints>", "<meta>",
                                                "</meta>", "<data name=\"x\">", "</data>", "<x/>", "&amp;", "&x;", "<![CDATA[", "]]>",
                                                "<!-- ", "-->", "<?pi?>", " indentation_string=\"\"", " name=\"\"", "<!DOCTYPE x>",
                                                "<!DOCTYPE feature_model [<!ENTITY e 'x'>]>", "\xff", "\xc3", std::string(1, '\0'),
                                                "&#0;", "&#10;", "xmlns=\"u\"", "feature_model", "\xef\xbb\xbf"};
  switch (R.below(6)) {
  case 0: T.resize(R.below(T.size() + 1)); break;
  case 1: T.insert(R.below(T.size() + 1), R.pick(Dict)); break;
  case 2: {
    size_t A = R.below(T.size() + 1), N = R.below(30);
    T.erase(A, N);
    break;
  }
  case 3: {
    size_t A = R.below(T.size() + 1);
    T.insert(R.below(T.size() + 1), T.substr(A, R.below(60)));
    break;
  }
  case 4:
    if (!T.empty()) {
      T[R.below(T.size())] = static_cast<char>(R.below(256));
    }
    break;
  default: {
    static const std::vector<std::pair<std::string, std::string>> Sub = {
        {"feature_model", "vm"},    {"<feature_tree", "<tree"},     {"constraints", "constraint"}, {"name=", "names="},
        {"indentation_string", "i"}, {"</feature_tree>", "</feature_tree><feature_tree/>"}, {"</feature_model>", "</feature_model><a/>"},
        {"<feature_model", "<meta/><feature_model"}};
    auto &[A, B] = R.pick(Sub);
    for (size_t P = T.find(A); P != std::string::npos; P = T.find(A, P + B.size())) {
      T.replace(P, A.size(), B);
      if (R.chance(30)) {
        break;
      }
    }
  }
  }
}
void run(Ctx &C) {
  auto &R = C.R;
  std::string T;
  auto K = R.below(100);
  if (K < 92) {
    auto D = genSxfm(R);
    if (K < 40) {
      for (uint64_t N = 1 + R.below(8) / 6; N && !D.Lines.empty(); --N) {
        damageLine(R, D);
      }
      T = sxfmWrap(R, D, true);
      C.note("tree_damaged");
    } else if (K < 60) {
      damageConstraint(R, D);
      T = sxfmWrap(R, D, true);
      C.note("constraint_damaged");
    } else if (K < 65) {
      static const std::vector<std::string> I = {"", " ", "\t", "x", ":", "  "};
      D.Indent = R.pick(I);
      T = sxfmWrap(R, D, true);
      C.note("indentation_changed");
    } else {
      T = D.Text;
      for (uint64_t N = 1 + R.below(3); N; --N) {
        damageText(R, T);
      }
      C.note("text_damaged");
    }
  } else if (K < 96) {
    for (size_t N = R.below(200); N; --N) {
      T += static_cast<char>(R.below(256));
    }
    C.note("bytes");
  } else {
    // lines of nothing but the alphabet
    SxfmDoc D;
    D.Indent = "\t";
    for (size_t N = R.below(6); N; --N) {
      std::string L;
      for (size_t J = R.below(14); J; --J) {
        L += "\t\t\t:::rmog  [],1*()ab"[R.below(21)];
      }
      D.Lines.push_back(L);
    }
    T = sxfmWrap(R, D, true);
    C.note("line_soup");
  }
  judge(C, T);
  C.distinct(T);
  C.sample(T);
}
std::string doc(const std::string &Tree, const std::string &Cons = "", const std::string &Attr = "") {
  return "<feature_model name=\"m\"><feature_tree" + Attr + ">" + Tree + "</feature_tree><constraints>" + Cons +
         "</constraints></feature_model>";
}
void probeKinds(Ctx &C) {
  auto Refused = [&](const std::string &T) {
    Model M;
    std::string Why;
    C.check(readSxfm(T, M, Why) == Verdict::Refuse, "setup", "own reader accepts " + T);
    judge(C, T);
  };
  Refused("");
  Refused("x");
  Refused("<vm name='m'/>");
  Refused("<meta/>");
  Refused("<data name='x'/>");
  Refused("<constraints/>");
  Refused("<feature_tree>:r root</feature_tree>");
  Refused("<feature_model name='m'/>");
  Refused("<feature_model name='m'><constraints/><feature_tree/></feature_model>");
  for (auto T : {":", ":r root\n\t: ", ":r root\n\t:x a", ":r root\n\t:optional a", ":r root\n\t\t:o a", ":r root\n:o a", ":r root\n:r b",
                 ":r root\n\t:r b", ":r root\n\t:o a\n\t:o a", ":r root\n\t:o root", ":r root\n\t:o a\n\t\t\t:o b", ":r root\n\to a",
                 ":r root\n :o a", ":r root\n\t :o a", ":r root\n\t:g a\n\t\t: b", ":r root\n\t:g [1,2] a\n\t\t: b",
                 ":r root\n\t:g [0,1] a\n\t\t: b", ":r root\n\t:g [1,*\n\t\t: b", ":r root\n\t:\n", ":r root\n\t:o", "\t:r root\n:o a",
                 "root", ":r root\n\t:og a"}) {
    judge(C, doc(T));
  }
  Refused(doc(":r root\n\t:o a\n\t:o a"));
  Refused(doc(":r root\n\t:r b"));
  Refused(doc(":r root\n\t\t:o a"));
  Refused(doc(":r root\n\t:optional a"));
  Refused(doc(":r root\n\t:x a"));
  Refused(doc(":r root\n\t:g [1,2] a\n\t\t: b"));
  Refused(doc(":r root\n\t:o a", "", " indentation_string=\"\""));
  for (auto T : {"root", "c:", "c: a or", "c: missing", "c: a missing", "c: ~", "c: (a", "c: a)", "c: a or missing"}) {
    Refused(doc(":r root\n\t:o a", T));
  }
}
void probeLong(Ctx &C) {
  for (size_t N : {1000, 50000}) {
    std::string A(N, 'a');
    judge(C, doc(":r root\n\t:o b(" + A + ")\n", "c: " + A));
    judge(C, doc(":r root\n\t:o " + A + "\n", "c: " + A + " or root"));
    std::string Many = ":r root\n";
    for (size_t I = 0; I < N / 100; ++I) {
      Many += "\t:o f" + std::to_string(I) + "(i" + std::to_string(I) + ")\n";
    }
    judge(C, doc(Many));
  }
}
} // namespace
int main(int argc, char **argv) {
  return harnessMain(argc, argv, run, {{"kinds", probeKinds}, {"long", probeLong}});
}
