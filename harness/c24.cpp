// C24: alternative groups are recognised exactly from mutual exclusion.
#include "model.h"
#include "vara/Feature/FeatureModelParser.h"
using namespace vf;

namespace {
void judge(Ctx &C, const Model &M) {
  auto T = XmlOut(C.R, M, {C.R.chance(50)}).text();
  C.say(T);
  auto L = vfe::FeatureModelXmlParser(T).buildFeatureModel();
  if (!C.check(L != nullptr, "refused", "valid document refused")) {
    return;
  }
  auto Got = sound(C, *L, "loaded model");
  auto Want = xmlMeaning(M);
  C.note("groups", Want.G.size());
  C.note(Want.G.empty() ? "models_without_group" : "models_with_group");
  // the groups, their members, and the exclusions left in place
  Canon K;
  K.Locs = false;
  sameModel(C, Got, Want, "groups", "groups or exclusions differ", K);
  // recognising again must not be needed: a second look adds no member twice
  C.distinct(canon(Want, K));
}

void run(Ctx &C) {
  auto &R = C.R;
  GenOpt O;
  O.MinF = 2;
  O.MaxF = R.chance(10) ? 16 : 8;
  O.Groups = 0;
  O.Textual = true;
  O.XmlRoot = true;
  O.Locs = false;
  O.Meta = false;
  O.WeirdText = false;
  O.Cons = R.chance(30) ? 4 : 0;
  O.SimpleImpl = true;
  O.Twins = 15;
  O.TwinSiblings = true;
  Model M = genModel(R, O);
  addExclusions(R, M, 75, 50);
  // exclusions of other shapes that must not count
  auto Names = M.names();
  size_t K = R.below(4);
  while (K--) {
    auto A = R.pick(Names), B = R.pick(Names);
    switch (R.below(4)) {
    case 0: M.B.push_back({bin(Op::Excl, feat(A), feat(B)), 0}); break;
    case 1: M.B.push_back({bin(Op::Imp, feat(A), un(Op::Not, feat(B))), 0}); break;
    case 2: M.B.push_back({bin(Op::Imp, feat(A), feat(B)), 0}); break;
    default: M.B.push_back({un(Op::Not, bin(Op::And, feat(A), feat(B))), 0});
    }
  }
  if (R.chance(15)) {
    weirdNames(R, M);
  }
  C.sample(canon(xmlMeaning(M)));
  judge(C, M);
}

Model siblings(int N) {
  Model M;
  M.Name = "m";
  M.Path = "p";
  MFeat X;
  X.Name = "root";
  X.Kind = 'r';
  M.F["root"] = X;
  for (int I = 0; I < N; ++I) {
    MFeat Y;
    Y.Name = std::string(1, static_cast<char>('A' + I));
    Y.Parent = "root";
    M.F[Y.Name] = Y;
  }
  return M;
}
// every set of directed exclusions over three siblings, every optionality
void probeAll3(Ctx &C) {
  for (int Opt = 0; Opt < 2; ++Opt) {
    for (int Bits = 0; Bits < 64; ++Bits) {
      auto M = siblings(3);
      M.F["B"].Opt = Opt;
      int K = 0;
      for (char A = 'A'; A < 'D'; ++A) {
        for (char B = 'A'; B < 'D'; ++B) {
          if (A != B && (Bits >> K++ & 1)) {
            M.B.push_back({bin(Op::Excl, feat(std::string(1, A)), feat(std::string(1, B))), 0});
          }
        }
      }
      judge(C, M);
    }
  }
}
void probeSelf(Ctx &C) {
  auto M = siblings(1);
  M.B.push_back({bin(Op::Excl, feat("A"), feat("A")), 0});
  judge(C, M);
  auto N = siblings(2);
  N.B.push_back({bin(Op::Excl, feat("A"), feat("A")), 0});
  N.B.push_back({bin(Op::Excl, feat("B"), feat("B")), 0});
  judge(C, N);
}
} // namespace
int main(int argc, char **argv) {
  return harnessMain(argc, argv, run, {{"three-siblings-exhaustive", probeAll3}, {"self-exclusion", probeSelf}});
}
