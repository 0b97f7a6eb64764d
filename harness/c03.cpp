// C03: writing a model to XML and loading it again gives the same model.
#include "model.h"
#include "vara/Feature/FeatureModelParser.h"
#include "vara/Feature/FeatureModelWriter.h"
#include <fstream>
#include <libxml/c14n.h>
#include <libxml/parser.h>
#include <sys/stat.h>
using namespace vf;

namespace {
Canon full() {
  Canon K;
  K.Sorted = false;
  K.StepText = true;
  return K;
}

std::string slurp(const std::string &P) {
  std::ifstream I(P, std::ios::binary);
  return {std::istreambuf_iterator<char>(I), {}};
}

// file names are taken literally
std::string scratch(Rng &R) {
  static const std::vector<std::string> N = {".xml", ".xml", " a.xml", "%20.xml", "#x?y.xml", "&amp;.xml", ".gz", "\xc3\xa4"};
  return "c03-" + std::to_string(gettid()) + R.pick(N);
}

// the canonical form of the document, with its document type
std::string document(const std::string &T) {
  xmlDocPtr D = xmlReadMemory(T.data(), static_cast<int>(T.size()), "d.xml", nullptr,
                              XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET);
  if (D == nullptr) {
    return "(not well-formed)";
  }
  std::string S;
  if (auto *I = xmlGetIntSubset(D)) {
    S += std::string(I->name ? reinterpret_cast<const char *>(I->name) : "") + " " +
         (I->SystemID ? reinterpret_cast<const char *>(I->SystemID) : "") + "\n";
  }
  xmlChar *B = nullptr;
  int N = xmlC14NDocDumpMemory(D, nullptr, XML_C14N_1_0, nullptr, 0, &B);
  if (N > 0) {
    S.append(reinterpret_cast<char *>(B), static_cast<size_t>(N));
  }
  xmlFree(B);
  xmlFreeDoc(D);
  return S;
}

// writes twice, compares string and file; the text if it was written
std::optional<std::string> write(Ctx &C, const FM &M, bool File) {
  auto Before = canon(snap(M), full());
  auto T = vfe::FeatureModelXmlWriter(M).writeFeatureModel();
  C.check(canon(snap(M), full()) == Before, "unchanged", "writing changed the model");
  if (File) {
    auto P = scratch(C.R);
    int Rc = vfe::FeatureModelXmlWriter(M).writeFeatureModel(P);
    C.note("files");
    if (T) {
      C.eq(Rc, 0, "file", "result of writing to a file");
      C.check(document(slurp(P)) == document(*T), "file", "file and string differ:\n" + *T + "\n--- file ---\n" + slurp(P));
      if (C.R.chance(30)) {
        // an older, longer file is replaced
        {
          std::ofstream O(P, std::ios::binary);
          O << std::string(T->size() * 2 + 100, 'x');
        }
        C.eq(vfe::FeatureModelXmlWriter(M).writeFeatureModel(P), 0, "file", "overwriting");
        C.check(document(slurp(P)) == document(*T), "file", "old content remains");
      }
    } else {
      C.check(Rc != 0, "file", "writing to a string fails, to a file it succeeds");
    }
    ::unlink(P.c_str());
  }
  return T;
}

// some operators become "excludes", which is written as "=> !"
E someExcl(Rng &R, const E &X) {
  if (isUn(X->O)) {
    return un(X->O, someExcl(R, X->L));
  }
  if (X->O == Op::And || X->O == Op::Or || X->O == Op::Imp || X->O == Op::Excl) {
    return bin(R.chance(30) ? Op::Excl : X->O, someExcl(R, X->L), someExcl(R, X->R));
  }
  return X;
}

// anything expressible
Model expressible(Rng &R) {
  GenOpt O;
  O.TwinSiblings = true;
  O.MaxF = R.chance(10) ? 25 : 9;
  O.MinF = 0;
  O.Groups = 0;
  O.Textual = true;
  O.XmlRoot = true;
  O.FullLocs = true;
  Model M = genModel(R, O);
  if (R.chance(40)) {
    addExclusions(R, M, 40, 30);
  }
  if (R.chance(30)) {
    weirdNames(R, M);
  }
  for (auto *V : {&M.B, &M.N}) {
    for (auto &C : *V) {
      if (R.chance(30)) {
        C.X = someExcl(R, C.X);
      }
    }
  }
  // excluded pairs are a set in the format
  std::set<std::string> Seen;
  std::vector<MCons> B;
  for (auto &C : M.B) {
    if (C.X->O != Op::Excl || C.X->L->O != Op::Feat || C.X->R->O != Op::Feat || Seen.insert(sexp(C.X)).second) {
      B.push_back(C);
    }
  }
  M.B = B;
  // white space inside texts
  for (auto &[K, X] : M.F) {
    if (!X.Out.empty() && R.chance(10)) {
      static const std::vector<std::string> W = {"\n", "\t", "\r", "  ", "\r\n"};
      X.Out.insert(1 + R.below(X.Out.size()), R.pick(W));
      // characters of more than one byte stay whole
      if (std::any_of(X.Out.begin(), X.Out.end(), [](unsigned char Ch) { return Ch >= 0x80; })) {
        X.Out = "a" + R.pick(W) + "b";
      }
    }
  }
  if (R.chance(5)) {
    M.Name = "two\nlines\tand tabs";
    M.Commit = "c\t1";
  }
  return M;
}

void run(Ctx &C) {
  auto &R = C.R;
  if (R.chance(12)) {
    // not (necessarily) expressible: writing is clean all the same
    GenOpt O;
    O.TwinSiblings = true;
    O.MaxF = 8;
    auto M = genModel(R, O);
    auto L = build(R, M);
    if (!C.check(L != nullptr, "setup", "model cannot be built")) {
      return;
    }
    auto T = write(C, *L, R.chance(50));
    bool Unplaced = false;
    for (auto &[K, X] : M.F) {
      for (auto &Lc : X.Locs) {
        Unplaced = Unplaced || !Lc.S || !Lc.E;
      }
    }
    C.check(T.has_value() || Unplaced, "refused", "model is not written");
    C.check(!T.has_value() || !Unplaced, "incomplete", "a location without positions is written");
    C.note(T ? "others_written" : "others_refused");
    if (T) {
      auto Back = vfe::FeatureModelXmlParser(*T).buildFeatureModel();
      if (Back) {
        sound(C, *Back, "reloaded");
      }
    }
    C.distinct(canon(M));
    return;
  }
  auto M = expressible(R);
  auto Want = xmlMeaning(M);
  std::unique_ptr<FM> L;
  std::string How;
  if (R.chance(25)) {
    L = vfe::FeatureModelXmlParser(XmlOut(R, M, {}).text()).buildFeatureModel();
    How = "from_xml";
  } else {
    Model Src = M;
    detectAlternatives(Src);
    L = build(R, Src);
    How = "from_calls";
  }
  if (!C.check(L != nullptr, "setup", "model cannot be built")) {
    return;
  }
  C.note(How);
  if (R.chance(15)) {
    L = L->clone();
    C.note("from_clone");
  }
  C.say(canon(snap(*L)));
  auto T = write(C, *L, R.chance(15));
  if (!C.check(T.has_value(), "refused", "model is not written")) {
    return;
  }
  C.note("documents");
  C.note("bytes", T->size());
  C.say(*T);
  C.check(static_cast<bool>(vfe::FeatureModelXmlParser(*T).verifyFeatureModel()), "verify",
          "written document does not verify");
  auto Back = vfe::FeatureModelXmlParser(*T).buildFeatureModel();
  if (!C.check(Back != nullptr, "reload", "written document does not load")) {
    return;
  }
  auto Got = sound(C, *Back, "reloaded model");
  Canon K;
  K.StepText = true;
  sameModel(C, Got, Want, "content", "reloaded model differs", K);
  auto T2 = vfe::FeatureModelXmlWriter(*Back).writeFeatureModel();
  // the order of siblings that differ in case only is open
  std::set<std::string> Lower;
  for (auto &[N, X] : M.F) {
    std::string Lo;
    for (char Ch : N) {
      Lo += static_cast<char>(std::tolower(static_cast<unsigned char>(Ch)));
    }
    Lower.insert(Lo);
  }
  C.check(T2 && (*T2 == *T || Lower.size() != M.F.size()), "stable", "writing the reloaded model gives another text:\n" + *T + "\n---\n" + T2.value_or(""));
  C.distinct(canon(Want));
  C.sample(*T);
}

Model base() {
  Model M;
  M.Name = "m";
  M.Path = "p";
  MFeat X;
  X.Name = "root";
  X.Kind = 'r';
  M.F["root"] = X;
  X.Name = "A";
  X.Kind = 'b';
  X.Parent = "root";
  M.F["A"] = X;
  return M;
}
void probeUnwritable(Ctx &C) {
  auto M = base();
  for (int I = 0; I < 400; ++I) {
    auto X = M.F["A"];
    X.Name = "Feature" + std::to_string(I);
    M.F[X.Name] = X;
  }
  auto L = build(C.R, M);
  ::mkdir("c03-dir", 0755);
  for (auto P : {"c03-dir/missing/x.xml", "c03-dir", "", "/dev/full"}) {
    C.check(vfe::FeatureModelXmlWriter(*L).writeFeatureModel(std::string(P)) != 0, "unwritable",
            std::string("writing to <") + P + "> reports success");
  }
  auto S = build(C.R, base());
  for (auto P : {"c03-dir/missing/x.xml", "c03-dir", "", "/dev/full"}) {
    C.check(vfe::FeatureModelXmlWriter(*S).writeFeatureModel(std::string(P)) != 0, "unwritable",
            std::string("writing a small model to <") + P + "> reports success");
  }
  ::rmdir("c03-dir");
}
void probeSymmetricExclusions(Ctx &C) {
  // the same pair in both directions, without being alternatives
  auto M = base();
  M.F["B"] = M.F["A"];
  M.F["B"].Name = "B";
  M.F["B"].Opt = true;
  M.B.push_back({bin(Op::Excl, feat("A"), feat("B")), 0});
  M.B.push_back({bin(Op::Excl, feat("B"), feat("A")), 0});
  auto L = build(C.R, M);
  auto T = vfe::FeatureModelXmlWriter(*L).writeFeatureModel();
  auto Back = T ? vfe::FeatureModelXmlParser(*T).buildFeatureModel() : nullptr;
  if (C.check(Back != nullptr, "reload", "not loaded")) {
    sameModel(C, sound(C, *Back, "reloaded"), xmlMeaning(M), "content", "exclusions");
  }
}
} // namespace
int main(int argc, char **argv) {
  return harnessMain(argc, argv, run,
                     {{"unwritable", probeUnwritable}, {"symmetric-exclusions", probeSymmetricExclusions}});
}
