// C04: an SXFM document loads as exactly the model it describes.
#include "sxfm.h"
using namespace vf;

namespace {
void loads(Ctx &C, const std::string &Text, const Model &Want) {
  vfe::FeatureModelSxfmParser V(Text);
  C.check(static_cast<bool>(V.verifyFeatureModel()), "verify", "valid document does not verify:\n" + Text);
  auto L = vfe::FeatureModelSxfmParser(Text).buildFeatureModel();
  if (!C.check(L != nullptr, "load", "valid document does not load:\n" + Text)) {
    return;
  }
  C.note("loaded");
  auto Got = sound(C, *L, "loaded model");
  Got.Path = Want.Path;
  sameModel(C, Got, Want, "content", "loaded model differs");
}
void run(Ctx &C) {
  auto &R = C.R;
  auto D = genSxfm(R);
  C.say(D.Text);
  C.note("lines", D.Lines.size());
  C.note("groups", D.M.G.size());
  C.note("constraints", D.Cons.size());
  // the own reader agrees (guards the oracle of C05)
  Model M;
  std::string Why;
  if (readSxfm(D.Text, M, Why) == Verdict::Load) {
    C.check(canon(M) == canon(D.M), "setup", "own reader disagrees: " + diff(canon(M), canon(D.M)));
    C.note("read_by_oracle");
  } else {
    C.fail("setup", "own reader refuses: " + Why);
  }
  loads(C, D.Text, D.M);
  if (R.chance(50)) {
    // the same model in another dress
    auto Again = D;
    Again.Indent = R.chance(50) ? "   " : "\t";
    for (auto &L : Again.Lines) {
      size_t I = 0, N = 0;
      while (L.compare(I, D.Indent.size(), D.Indent) == 0 && I < L.find(':')) {
        I += D.Indent.size();
        ++N;
      }
      std::string S;
      while (N--) {
        S += Again.Indent;
      }
      L = S + L.substr(I);
    }
    for (size_t I = 0; I < Again.Cons.size(); ++I) {
      Again.Cons[I] = "label" + std::to_string(I) + Again.Cons[I].substr(Again.Cons[I].find(':'));
    }
    Again.Text = sxfmWrap(R, Again, false);
    C.say(Again.Text);
    loads(C, Again.Text, D.M);
  }
  C.distinct(canon(D.M));
  C.sample(D.Text);
}
void text(Ctx &C, const std::string &Tree, const std::string &Cons, const std::string &Ind = "") {
  std::string T = "<feature_model name=\"m\"><feature_tree" + (Ind.empty() ? "" : " indentation_string=\"" + Ind + "\"") + ">\n" + Tree +
                  "</feature_tree><constraints>\n" + Cons + "</constraints></feature_model>";
  Model M;
  std::string Why;
  if (C.check(readSxfm(T, M, Why) == Verdict::Load, "setup", "own reader: " + Why + "\n" + T)) {
    loads(C, T, M);
  }
}
void probeExamples(Ctx &C) {
  text(C, ":r root(root)\n\t:g [1,1] a(a)\n\t\t: b(b)\n\t\t: c(c)\n\t:o d(d)\n", "c1:~b or ~d\nc2: d or c\n");
  // ids inside of other ids and names
  text(C, ":r root(r)\n\t:o ab(a)\n\t:o b(ab)\n\t:o a(b)\n", "c:~a or ~ab or b\n");
  text(C, ":r root(r)\n\t:o rooty(ro)\n\t:o x(o)\n", "c:r or ro or ~o\n");
  // names that are no identifiers
  text(C, ":r root(r)\n\t:o a-b(x)\n\t:o or(y)\n\t:o 7(z)\n", "c:~x or y or z\n");
  // blanks around names
  text(C, ":r root (r)\n\t:g [1,1] alt (e)\n\t\t: a  (x)\n\t\t: b \n\t:o  spaced\n", "c: e or x\n");
  // ids of nameless groups
  text(C, ":r root(r)\n\t:g (g1) [1,*]\n\t\t: a(x)\n\t\t: b(y)\n\t:g [1,1] (g2)\n\t\t: c\n\t\t: d\n", "c:~g1 or g2\n");
  // groups in groups, and groups of several levels one after the other
  text(C,
       ":r root\n\t:g [1,1]\n\t\t:g [1,*]\n\t\t\t: a\n\t\t\t: b\n\t\t: c\n\t\t\t:g [1,1]\n\t\t\t\t: d\n\t\t\t\t: e\n\t:g [1,*]\n\t\t: f\n\t\t: "
       "g\n",
       "");
  text(C, "  :r root\n    :o a\n      :m b\n    :m c\n", "", "  ");
  text(C, "", "");
  text(C, "", "c: root\n");
}
// every tree shape of four lines
void probeShapes(Ctx &C) {
  for (int A = 1; A <= 1; ++A) {
    for (int B = 1; B <= 2; ++B) {
      for (int D = 1; D <= B + 1; ++D) {
        for (unsigned K = 0; K < 64; ++K) {
          std::vector<int> Lv = {A, B, D};
          std::string T = ":r root\n";
          bool Ok = true;
          for (size_t I = 0; I < 3; ++I) {
            unsigned Ty = (K >> (2 * I)) & 3;
            bool Child = I + 1 < 3 && Lv[I + 1] == Lv[I] + 1;
            T += std::string(static_cast<size_t>(Lv[I]), '\t');
            if (Ty >= 2) {
              Ok = Ok && Child;
              T += std::string(":g [1,") + (Ty == 2 ? "1" : "*") + "] f" + std::to_string(I) + "\n";
            } else {
              T += std::string(Ty ? ":o" : ":m") + " f" + std::to_string(I) + "\n";
            }
          }
          if (Ok) {
            text(C, T, "");
          }
        }
      }
    }
  }
}
} // namespace
int main(int argc, char **argv) {
  return harnessMain(argc, argv, run, {{"examples", probeExamples}, {"shapes", probeShapes}});
}
