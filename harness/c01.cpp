// C01: an XML document describes exactly the model that is loaded from it.
#include "model.h"
#include "vara/Feature/FeatureModelParser.h"
#include <fstream>
using namespace vf;

namespace {

std::unique_ptr<FM> load(Ctx &C, const std::string &T) {
  if (C.R.chance(10)) {
    std::string P = "c01-" + std::to_string(gettid()) + ".xml";
    {
      std::ofstream O(P, std::ios::binary);
      O << T;
    }
    C.check(vfe::verifyFeatureModel(P), "verify", "document does not verify");
    auto M = vfe::loadFeatureModel(P);
    ::unlink(P.c_str());
    C.note("loaded_from_file");
    return M;
  }
  vfe::FeatureModelXmlParser V(T);
  C.check(static_cast<bool>(V.verifyFeatureModel()), "verify", "document does not verify");
  if (C.R.chance(30)) {
    // the same parser object after verification
    return V.buildFeatureModel();
  }
  return vfe::FeatureModelXmlParser(T).buildFeatureModel();
}

std::string judge(Ctx &C, const std::string &T, const Model &Want) {
  C.say(T);
  auto M = load(C, T);
  C.note("documents");
  if (!C.check(M != nullptr, "refused", "valid document refused")) {
    return "";
  }
  auto Got = sound(C, *M, "loaded model");
  C.note("features", Got.F.size());
  C.note("constraints", Got.B.size() + Got.N.size() + Got.M.size());
  C.note("groups", Got.G.size());
  for (auto &[K, X] : Got.F) {
    C.note("locations", X.Locs.size());
  }
  sameModel(C, Got, Want, "content", "loaded model differs from the described one");
  return canon(Got);
}

void run(Ctx &C) {
  auto &R = C.R;
  GenOpt O;
  O.TwinSiblings = true;
  O.MaxF = R.chance(10) ? 25 : 9;
  O.MinF = 0;
  O.Groups = 0;
  O.Textual = true;
  O.XmlRoot = true;
  O.FullLocs = true;
  Model M = genModel(R, O);
  if (R.chance(30)) {
    addExclusions(R, M, 40, 30);
  }
  if (R.chance(30)) {
    weirdNames(R, M);
  }
  auto Want = xmlMeaning(M);
  std::string T = XmlOut(R, M, {R.chance(10)}).text();
  C.distinct(canon(Want));
  C.sample(T);
  auto A = judge(C, T, Want);
  if (R.chance(40)) {
    // another text for the same description
    auto B = judge(C, XmlOut(R, M, {}).text(), Want);
    C.note("second_spelling");
    C.check(A == B, "spelling", "two spellings of one description give different models");
  }
}

Model base(const std::string &Root = "root") {
  Model M;
  M.Name = "m";
  M.Path = "p";
  M.Root = Root;
  MFeat X;
  X.Name = Root;
  X.Kind = 'r';
  M.F[Root] = X;
  return M;
}
MFeat bf(const std::string &N, const std::string &P, bool Opt = false) {
  MFeat X;
  X.Name = N;
  X.Parent = P;
  X.Opt = Opt;
  return X;
}

// directed: every attribute of a source range
void probeRange(Ctx &C) {
  Model M = base();
  for (int Bits = 0; Bits < 16; ++Bits) {
    auto X = bf("F" + std::to_string(Bits), "root");
    MLoc L;
    L.Path = "a.cpp";
    L.S = {1, 2};
    L.E = {3, 4};
    L.Iness = Bits & 1;
    if (Bits & 2) {
      L.Member = "C::m";
    }
    if (Bits & 4) {
      L.Rev = MRev{"aa", std::nullopt};
      if (Bits & 8) {
        L.Rev->Removed = "bb";
      }
    }
    X.Locs = {L, L};
    X.Locs[1].S = {9, 9};
    M.F[X.Name] = X;
  }
  judge(C, XmlOut(C.R, M, {true}).text(), xmlMeaning(M));
}
void probeRootBase(Ctx &C) {
  for (auto Root : {"root", "base"}) {
    Model M = base(Root);
    M.F["A"] = bf("A", Root);
    M.F["B"] = bf("B", "A", true);
    M.B.push_back({bin(Op::Excl, feat(Root), feat("B")), 0});
    M.B.push_back({bin(Op::Imp, feat("B"), feat(Root)), 0});
    for (int I = 0; I < 8; ++I) {
      judge(C, XmlOut(C.R, M, {}).text(), xmlMeaning(M));
    }
  }
}
void probeNumbers(Ctx &C) {
  Model M = base();
  auto Add = [&](const std::string &N, std::vector<int64_t> V) {
    auto X = bf(N, "root");
    X.Kind = 'n';
    X.IsRange = false;
    X.Vals = std::move(V);
    M.F[N] = X;
  };
  Add("A", {INT64_MIN, -1, 0, 1, INT64_MAX});
  Add("B", {4294967296, -4294967297, 2147483648});
  Add("C", {7});
  auto X = bf("D", "root");
  X.Kind = 'n';
  X.Lo = INT64_MIN;
  X.Hi = INT64_MAX;
  M.F["D"] = X;
  X.Name = "E";
  X.Lo = 3000000000;
  X.Hi = 5000000000;
  M.F["E"] = X;
  judge(C, XmlOut(C.R, M, {true}).text(), xmlMeaning(M));
}
void probeMixed(Ctx &C) {
  Model M = base();
  M.F["A"] = bf("A", "root");
  for (int I = 0; I < 4; ++I) {
    M.M.push_back({bin(Op::Ge, feat("A"), num(I)), 2, (I & 1) != 0, (I & 2) != 0});
  }
  judge(C, XmlOut(C.R, M, {true}).text(), xmlMeaning(M));
}
// without a root attribute the current directory is the path
void probeNoRootAttr(Ctx &C) {
  Model M = base();
  M.Path = fs::current_path().string();
  judge(C, "<vm name=\"m\"><binaryOptions/></vm>", M);
}
void probeMin(Ctx &C) {
  Model M = base();
  judge(C, "<?xml version='1.0'?><vm name='m' root='p'><binaryOptions></binaryOptions></vm>", M);
  judge(C, "<vm root='p' commit='' name='m'><binaryOptions/><numericOptions/><booleanConstraints/>"
           "<nonBooleanConstraints/><mixedConstraints/></vm>", M);
}
// an internal entity is replaced, wherever it stands
void probeEntity(Ctx &C) {
  Model M = base();
  M.F["A"] = bf("A", "root");
  M.F["A"].Out = "x&y";
  judge(C, "<vm root='p' name='m'><binaryOptions><configurationOption><name>&#65;</name>"
           "<outputString>x&amp;y</outputString></configurationOption></binaryOptions></vm>", M);
}
} // namespace
int main(int argc, char **argv) {
  return harnessMain(argc, argv, run,
                     {{"source-range-attributes", probeRange}, {"root-and-base", probeRootBase},
                      {"number-limits", probeNumbers}, {"mixed-kinds", probeMixed},
                      {"no-root-attribute", probeNoRootAttr}, {"minimal", probeMin}, {"entities", probeEntity}});
}
