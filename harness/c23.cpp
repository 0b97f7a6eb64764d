// C23: the Python module does the same as the C++ library.  Scenarios are
// executed here through the C++ API and by c23_driver.py through the module.
#include "model.h"
#include "vara/Feature/ConstraintBuilder.h"
#include "vara/Feature/FeatureModelParser.h"
#include "vara/Feature/FeatureModelWriter.h"
#include "llvm/Support/JSON.h"
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vf;
namespace js = llvm::json;

namespace {
std::string Dir; // scratch directory of this process

std::string slurp(const std::string &P) {
  std::ifstream I(P, std::ios::binary);
  std::stringstream S;
  S << I.rdbuf();
  return S.str();
}
void spit(const std::string &P, const std::string &T) {
  std::ofstream O(P, std::ios::binary);
  O << T;
}
void cleanup() {
  if (auto *D = opendir(Dir.c_str())) {
    while (auto *E = readdir(D)) {
      std::string N = E->d_name;
      if (N != "." && N != "..") {
        unlink((Dir + "/" + N).c_str());
      }
    }
    closedir(D);
  }
  rmdir(Dir.c_str());
}
void scratch() {
  if (Dir.empty()) {
    char T[] = "/tmp/c23XXXXXX";
    Dir = mkdtemp(T) ? T : "/tmp";
    atexit(cleanup);
  }
}

//===-------------------------------------------------------------------===//
// what is seen
js::Value pos(const vfe::FeatureSourceRange::FeatureSourceLocation *P) {
  if (!P) {
    return nullptr;
  }
  return js::Array{P->getLineNumber(), P->getColumnOffset(), P->toString()};
}
js::Value loc(FSR &L) {
  return js::Object{{"path", L.getPath().string()},
                    {"start", pos(L.getStart())},
                    {"end", pos(L.getEnd())},
                    {"category", L.getCategory() == FSR::Category::necessary ? "necessary" : "inessential"},
                    {"text", L.toString()}};
}
js::Value node(vfe::FeatureTreeNode *N) {
  if (!N) {
    return nullptr;
  }
  if (auto *F = llvm::dyn_cast<vfe::Feature>(N)) {
    return F->getName().str();
  }
  return "<group>";
}
/// The order of children is open (e.g., after merges): sorts the list in the text.
std::string anyOrder(std::string T) {
  static const std::string Begin = "children: [";
  auto I = T.find(Begin);
  if (I == std::string::npos) {
    return T;
  }
  I += Begin.size();
  auto E = T.size();
  for (auto J = I; J < T.size(); ++J) {
    if (T[J] == ']' && (J + 1 == T.size() || T.compare(J + 1, 12, ",\n  minValue") == 0 || T.compare(J + 1, 10, ",\n  values") == 0)) {
      E = J;
      break;
    }
  }
  std::vector<std::string> Parts;
  std::stringstream S(T.substr(I, E - I));
  for (std::string P; std::getline(S, P, ',');) {
    Parts.push_back(P);
  }
  std::sort(Parts.begin(), Parts.end());
  std::string Out;
  for (auto &P : Parts) {
    Out += P + ",";
  }
  return T.replace(I, E - I, Out);
}
js::Array sortedNames(vfe::FeatureTreeNode *N) {
  std::vector<std::string> V;
  for (auto *K : *N) {
    V.push_back(node(K).getAsString()->str());
  }
  std::sort(V.begin(), V.end());
  js::Array A;
  for (auto &X : V) {
    A.push_back(X);
  }
  return A;
}
js::Value feature(vfe::Feature *F) {
  js::Array Ls;
  for (auto &L : F->getLocations()) {
    Ls.push_back(loc(L));
  }
  std::vector<std::string> Gs;
  for (auto *K : *F) {
    if (!llvm::isa<vfe::Feature>(K)) {
      std::string S;
      for (auto &X : sortedNames(K)) {
        S += (S.empty() ? "" : " ") + X.getAsString()->str();
      }
      Gs.push_back(S);
    }
  }
  std::sort(Gs.begin(), Gs.end());
  js::Array G;
  for (auto &X : Gs) {
    G.push_back(X);
  }
  auto K = F->getKind();
  using FK = vfe::Feature::FeatureKind;
  return js::Object{{"type", K == FK::FK_BINARY    ? "BinaryFeature"
                             : K == FK::FK_NUMERIC ? "NumericFeature"
                             : K == FK::FK_ROOT    ? "RootFeature"
                                                   : "Feature"},
                    {"name", F->getName().str()},
                    {"output", F->getOutputString().str()},
                    {"root", llvm::isa<vfe::RootFeature>(F)},
                    {"optional", F->isOptional()},
                    {"locations", std::move(Ls)},
                    {"str", anyOrder(F->toString())},
                    {"string", anyOrder(F->toString())},
                    {"parent", node(F->getParent())},
                    {"children", sortedNames(F)},
                    {"groups", std::move(G)}};
}
template <class R> js::Array constraints(R &&Cs) {
  js::Array A;
  for (auto *C : Cs) {
    js::Array D{C->toString(), C->constraint()->toString(), C->constraint()->clone()->toString()};
    if constexpr (std::is_same_v<std::decay_t<decltype(*C)>, FM::MixedConstraint>) {
      D.push_back(C->req() == FM::MixedConstraint::Req::ALL ? "ALL" : "NONE");
      D.push_back(C->exprKind() == FM::MixedConstraint::ExprKind::POS ? "POS" : "NEG");
    }
    A.push_back(std::move(D));
  }
  return A;
}
js::Value model(const FM *M) {
  if (!M) {
    return nullptr;
  }
  std::vector<vfe::Feature *> Fs;
  for (auto *F : *M) {
    Fs.push_back(F);
  }
  js::Array Order, Feats;
  for (size_t I = 0; I < Fs.size(); ++I) {
    Feats.push_back(feature(Fs[I]));
    for (size_t J = I < 3 ? 0 : I - 3; J < std::min(Fs.size(), I + 4); ++J) {
      Order.push_back(js::Array{*Fs[I] < *Fs[J], *Fs[I] == *Fs[J]});
    }
  }
  return js::Object{{"name", M->getName().str()},
                    {"path", M->getPath().string()},
                    {"commit", M->getCommit().str()},
                    {"size", static_cast<int64_t>(M->size())},
                    {"root", node(M->getRoot())},
                    {"features", std::move(Feats)},
                    {"order", std::move(Order)},
                    {"bool", constraints(M->booleanConstraints())},
                    {"nonbool", constraints(M->nonBooleanConstraints())},
                    {"mixed", constraints(M->mixedConstraints())}};
}
const FM &cst(const FM &M) { return M; }
js::Value model(const std::unique_ptr<FM> &M) { return model(static_cast<const FM *>(M.get())); }

//===-------------------------------------------------------------------===//
// scenarios: executed while they are made up
js::Object locSpec(const MLoc &L, int Args = 4) {
  auto P = [](const std::optional<std::pair<unsigned, unsigned>> &X) -> js::Value {
    if (!X) {
      return nullptr;
    }
    return js::Array{static_cast<int64_t>(X->first), static_cast<int64_t>(X->second)};
  };
  return js::Object{{"path", L.Path}, {"start", P(L.S)}, {"end", P(L.E)}, {"category", L.Iness ? "inessential" : "necessary"}, {"args", Args}};
}
FSR mk(MLoc L, int Args = 4) {
  L.Member.reset();
  L.Rev.reset();
  if (Args < 4) {
    L.Iness = false;
  }
  if (Args < 3) {
    L.E.reset();
  }
  if (Args < 2) {
    L.S.reset();
  }
  return mkLoc(L);
}
MLoc aLoc(Rng &R) {
  auto L = genLoc(R, false);
  if (L.S && L.S->first > INT32_MAX) {
    L.S->first = 5;
  }
  return L;
}
js::Value locList(Rng &R, std::vector<FSR> &Out, bool &Given) {
  Given = R.chance(50);
  if (!Given) {
    return nullptr;
  }
  js::Array A;
  for (auto N = R.below(3); N; --N) {
    auto L = aLoc(R);
    int Args = static_cast<int>(1 + R.below(4));
    A.push_back(locSpec(L, Args));
    Out.push_back(mk(L, Args));
  }
  return A;
}
js::Value values(Rng &R, vfe::NumericFeature::ValuesVariantType &V) {
  if (R.chance(40)) {
    int64_t A = R.range(-50, 50), B = A + static_cast<int64_t>(R.below(60));
    if (R.chance(10)) {
      A = INT64_MIN;
      B = INT64_MAX;
    }
    V = std::make_pair(A, B);
    return js::Object{{"range", js::Array{A, B}}};
  }
  std::vector<int64_t> Vs;
  js::Array J;
  for (auto N = R.below(5); N; --N) {
    Vs.push_back(R.range(-100, 100));
    J.push_back(Vs.back());
  }
  V = Vs;
  return J;
}
Model docModel(Rng &R) {
  GenOpt O;
  O.MaxF = R.chance(10) ? 20 : 7;
  O.MinF = 0;
  O.Groups = 0;
  O.Textual = true;
  O.XmlRoot = true;
  O.FullLocs = true;
  O.Cons = 5;
  O.Twins = 0; // merges and removals bring them below one parent, where their order is open
  auto M = genModel(R, O);
  if (R.chance(40)) {
    addExclusions(R, M, 60, 10);
  }
  if (R.chance(20)) {
    weirdNames(R, M);
  }
  return M;
}
std::string xmlOf(Rng &R, const Model &M) { return XmlOut(R, M, {true}).text(); }

using Scn = std::pair<js::Value, js::Value>; // what to do, what is to be seen

Scn history(Rng &R) {
  auto X = xmlOf(R, docModel(R));
  auto P = Dir + "/in.xml";
  spit(P, X);
  auto M = vfe::loadFeatureModel(P);
  js::Array Ops, Want{model(M)};
  int Fresh = 0;
  for (auto N = M ? 1 + R.below(9) : 0; N; --N) {
    std::vector<vfe::Feature *> Fs;
    for (auto *F : cst(*M)) {
      Fs.push_back(F);
    }
    if (Fs.empty()) {
      break;
    }
    auto *F = R.pick(Fs);
    auto Fn = F->getName().str();
    js::Object O;
    js::Value W = nullptr;
    switch (R.below(14)) {
    case 0:
    case 1:
    case 2: {
      bool Num = R.chance(40), Opt = R.chance(50), Given = false;
      std::string Name = R.chance(12) ? R.pick(Fs)->getName().str() : "new" + std::to_string(++Fresh);
      vfe::NumericFeature::ValuesVariantType V;
      std::vector<FSR> Ls;
      O["op"] = "add";
      O["parent"] = Fn;
      O["name"] = Name;
      O["opt"] = Opt;
      if (Num) {
        O["values"] = values(R, V);
      }
      O["locs"] = locList(R, Ls, Given);
      std::unique_ptr<vfe::Feature> Nf;
      if (Num) {
        Nf = std::make_unique<vfe::NumericFeature>(Name, V, Opt, Ls);
      } else {
        Nf = std::make_unique<vfe::BinaryFeature>(Name, Opt, Ls);
      }
      vfe::addFeature(*M, std::move(Nf), F);
      break;
    }
    case 3: {
      bool Rec = R.chance(50);
      if (llvm::isa<vfe::RootFeature>(F)) {
        Rec = false; // an emptied model is of no use here
      }
      O = js::Object{{"op", "remove"}, {"name", Fn}, {"rec", Rec}};
      vfe::removeFeature(*M, F, Rec);
      break;
    }
    case 4: {
      auto T = genText(R, true, false);
      O = js::Object{{"op", "commit"}, {"text", T}};
      vfe::setCommit(*M, T);
      W = M->getCommit().str();
      break;
    }
    case 5: {
      bool Strict = R.chance(50);
      O = js::Object{{"op", "merge"}, {"strict", Strict}};
      std::unique_ptr<FM> Res;
      if (R.chance(30)) {
        O["with"] = nullptr;
        Res = vfe::mergeFeatureModels(*M, *M, Strict);
      } else {
        auto D = docModel(R);
        D.F.at(D.Root).Name = M->getRoot()->getName().str();
        if (R.chance(80) && !D.F.count(M->getRoot()->getName().str())) {
          auto Rt = D.F.at(D.Root);
          auto To = M->getRoot()->getName().str();
          D.F.erase(D.Root);
          for (auto &[K, Y] : D.F) {
            if (Y.Parent == D.Root) {
              Y.Parent = To;
            }
          }
          D.Root = To;
          D.F[To] = Rt;
          D.B.clear();
          D.N.clear();
          D.M.clear();
        }
        D.F.at(D.Root).Name = D.Root;
        // Names that differ in case only below one parent: their order is open.
        auto Twin = [&](llvm::StringRef Nm) {
          return llvm::any_of(cst(*M), [&](auto *E) {
            return E->getName() != Nm && E->getName().equals_insensitive(Nm);
          });
        };
        if (llvm::any_of(D.F, [&](auto &E) { return Twin(E.first); })) {
          continue;
        }
        auto X2 = xmlOf(R, D);
        O["with"] = X2;
        auto P2 = Dir + "/other.xml";
        spit(P2, X2);
        auto Other = vfe::loadFeatureModel(P2);
        if (!Other) {
          continue;
        }
        Res = vfe::mergeFeatureModels(*M, *Other, Strict);
      }
      W = model(Res);
      if (Res) {
        M = std::move(Res);
      }
      break;
    }
    case 6:
      O["op"] = "write";
      W = vfe::FeatureModelXmlWriter(*M).writeFeatureModel().value_or("");
      break;
    case 7: {
      O["op"] = "write_file";
      auto Q = Dir + "/out.xml";
      int Rc = vfe::FeatureModelXmlWriter(*M).writeFeatureModel(Q);
      struct stat St {};
      js::Value T = nullptr;
      if (stat(Q.c_str(), &St) == 0) {
        T = slurp(Q);
        unlink(Q.c_str());
      }
      W = js::Array{Rc, std::move(T)};
      break;
    }
    case 8: {
      auto L = aLoc(R);
      int Args = static_cast<int>(1 + R.below(4));
      O = js::Object{{"op", "add_loc"}, {"f", Fn}, {"loc", locSpec(L, Args)}};
      F->addLocation(mk(L, Args));
      break;
    }
    case 9:
    case 10:
    case 11:
    case 12: {
      auto NL = static_cast<int64_t>(std::distance(F->getLocationsBegin(), F->getLocationsEnd()));
      auto I = static_cast<int64_t>(R.below(static_cast<uint64_t>(NL) + 1));
      auto At = F->getLocationsBegin() + I;
      bool In = I < NL;
      O["f"] = Fn;
      O["i"] = I;
      switch (R.below(5)) {
      case 0: {
        auto L = aLoc(R);
        O["op"] = "upd_loc";
        O["loc"] = locSpec(L);
        W = F->updateLocation(In ? FSR(*At) : FSR(fs::path("nowhere")), mk(L));
        break;
      }
      case 1:
        O["op"] = "rm_loc";
        F->removeLocation(In ? FSR(*At) : FSR(fs::path("nowhere")));
        break;
      case 2:
        if (!In) {
          continue;
        }
        O["op"] = "set_path";
        O["text"] = "changed/" + std::to_string(R.below(9));
        At->setPath(O["text"].getAsString()->str());
        W = loc(*At);
        break;
      case 3: {
        if (!In) {
          continue;
        }
        bool N = R.chance(50);
        O["op"] = "set_cat";
        O["text"] = N ? "necessary" : "inessential";
        At->setCategory(N ? FSR::Category::necessary : FSR::Category::inessential);
        W = loc(*At);
        break;
      }
      default: {
        if (!In) {
          continue;
        }
        bool S = R.chance(50);
        O["op"] = "set_pos";
        O["which"] = S ? "start" : "end";
        int64_t A = R.below(1000), B = R.below(100);
        O["at"] = js::Array{A, B};
        if (auto *Q = S ? At->getStart() : At->getEnd()) {
          Q->setLineNumber(static_cast<int>(A));
          Q->setColumnOffset(static_cast<int>(B));
          W = loc(*At);
        }
      }
      }
      break;
    }
    default: O["op"] = "observe"; W = model(M);
    }
    Ops.push_back(std::move(O));
    Want.push_back(std::move(W));
  }
  if (M) {
    Ops.push_back(js::Object{{"op", "observe"}});
    Want.push_back(model(M));
  }
  return {js::Object{{"kind", "history"}, {"xml", X}, {"ops", std::move(Ops)}}, std::move(Want)};
}

Scn keep(Rng &R) {
  auto D = docModel(R);
  auto X = xmlOf(R, D);
  spit(Dir + "/in.xml", X);
  auto M = vfe::loadFeatureModel(Dir + "/in.xml");
  js::Array W;
  if (!M) {
    return {js::Object{{"kind", "files"}, {"texts", js::Array{X}}}, js::Array{js::Array{false, nullptr}}};
  }
  std::vector<vfe::Feature *> Fs;
  for (auto *F : cst(*M)) {
    Fs.push_back(F);
  }
  auto *F = R.pick(Fs);
  // prefer one with locations
  for (int I = 0; I < 3 && !F->hasLocations(); ++I) {
    F = R.pick(Fs);
  }
  auto *Root = M->getRoot();
  js::Array All, Names, Locs, Starts, Str, Str2;
  for (auto *G : Fs) {
    All.push_back(feature(G));
    Names.push_back(node(G));
  }
  for (auto &L : F->getLocations()) {
    Locs.push_back(loc(L));
    Starts.push_back(pos(L.getStart()));
  }
  for (auto *C : cst(*M).booleanConstraints()) {
    Str.push_back(C->toString());
  }
  for (auto *C : cst(*M).mixedConstraints()) {
    Str2.push_back(C->toString());
  }
  bool Kid = false;
  for (auto *K : *Root) {
    Kid = Kid || llvm::isa<vfe::Feature>(K);
  }
  W.push_back(M->getName().str());
  W.push_back(feature(Root));
  W.push_back(feature(F));
  W.push_back(F->getName().str());
  W.push_back(F->getOutputString().str());
  W.push_back(node(F->getParent()));
  W.push_back(js::Array(All));
  W.push_back(feature(Fs.back()));
  W.push_back(js::Array(Names));
  W.push_back(feature(Root));
  W.push_back(sortedNames(Root));
  W.push_back(sortedNames(Root));
  W.push_back(sortedNames(Root));
  W.push_back(Kid ? 1 : 0);
  W.push_back(js::Array(Locs));
  W.push_back(js::Array(Locs));
  W.push_back(js::Array(Starts));
  W.push_back(constraints(cst(*M).booleanConstraints()));
  W.push_back(constraints(cst(*M).nonBooleanConstraints()));
  W.push_back(constraints(cst(*M).mixedConstraints()));
  W.push_back(js::Array(Str));
  W.push_back(js::Array(Str2));
  W.push_back(vfe::FeatureModelXmlWriter(*M).writeFeatureModel().value_or(""));
  auto M2 = vfe::loadFeatureModel(Dir + "/in.xml");
  auto Mg = vfe::mergeFeatureModels(*M, *M2, false);
  if (!Mg) {
    return history(R);
  }
  W.push_back(static_cast<int64_t>(Mg->size()));
  return {js::Object{{"kind", "keep"}, {"xml", X}, {"feature", F->getName().str()}}, std::move(W)};
}

// calls of the constraint builder
js::Array consCalls(Rng &R, vfe::ConstraintBuilder &B, const std::vector<std::string> &Names, bool Broken) {
  js::Array A;
  auto Add = [&](const char *N, std::optional<js::Value> V = std::nullopt) {
    js::Array C{N};
    if (V) {
      C.push_back(*V);
    }
    A.push_back(std::move(C));
  };
  int Open = 0;
  bool Operand = true; // expected next
  size_t Len = 1 + R.below(9);
  for (size_t I = 0; I < Len || Operand || Open > 0;) {
    if (A.size() > 40) {
      break;
    }
    if (Broken && R.chance(10)) {
      if (R.chance(50)) {
        break;
      }
      Operand = !Operand;
    }
    if (Operand) {
      switch (I < Len ? R.below(8) : 7) {
      case 0: B.lNot(); Add("lNot"); break;
      case 1: B.neg(); Add("neg"); break;
      case 2: B.openPar(); Add("openPar"); ++Open; break;
      case 3: {
        int64_t V = R.range(0, 500);
        if (R.chance(10)) {
          V = INT32_MAX;
        }
        B.constant(V);
        Add("constant", V);
        Operand = false;
        break;
      }
      default: {
        auto N = R.pick(Names);
        B.feature(N);
        Add("feature", js::Value(N));
        Operand = false;
      }
      }
      ++I;
    } else if ((Open > 0 && (R.chance(30) || I >= Len))) {
      B.closePar();
      Add("closePar");
      --Open;
    } else if (R.chance(5)) {
      B();
      A.push_back(js::Array{"()"});
      Open = 0;
    } else {
      switch (R.below(16)) {
#define VF_OP(N, F)                                                                                                    \
  case N:                                                                                                              \
    B.F();                                                                                                             \
    Add(#F);                                                                                                           \
    break;
        VF_OP(0, lOr)
        VF_OP(1, lXor)
        VF_OP(2, lAnd)
        VF_OP(3, implies)
        VF_OP(4, excludes)
        VF_OP(5, equivalent)
        VF_OP(6, equal)
        VF_OP(7, notEqual)
        VF_OP(8, less)
        VF_OP(9, greater)
        VF_OP(10, lessEqual)
        VF_OP(11, greaterEqual)
        VF_OP(12, add)
        VF_OP(13, subtract)
        VF_OP(14, multiply)
      default: B.divide(); Add("divide");
#undef VF_OP
      }
      Operand = true;
      ++I;
    }
  }
  return A;
}
Scn constraint(Rng &R) {
  vfe::ConstraintBuilder B;
  auto Calls = consCalls(R, B, {"A", "B", "foo_bar", "x1"}, R.chance(25));
  auto C = B.build();
  bool All = R.chance(50), Pos = R.chance(50);
  js::Value W = nullptr;
  if (C) {
    auto T = C->toString();
    js::Array A;
    for (int I = 0; I < 9; ++I) {
      A.push_back(C->clone()->toString());
    }
    A.push_back(All ? "ALL" : "NONE");
    A.push_back(Pos ? "POS" : "NEG");
    A.push_back(T);
    W = std::move(A);
  }
  return {js::Object{{"kind", "constraint"}, {"calls", std::move(Calls)}, {"req", All ? "ALL" : "NONE"},
                     {"expr", Pos ? "POS" : "NEG"}},
          std::move(W)};
}
Scn builder(Rng &R) {
  vfe::FeatureModelBuilder FB;
  std::vector<std::string> Names{"root"};
  js::Array Calls, Log;
  auto Note = [&](js::Array C) {
    Calls.push_back(std::move(C));
    Log.push_back(true);
  };
  auto N = R.below(8);
  std::vector<std::function<void()>> Do;
  for (size_t I = 0; I < N; ++I) {
    Names.push_back("f" + std::to_string(I) + (R.chance(30) ? "X" : ""));
  }
  for (size_t I = 1; I < Names.size(); ++I) {
    auto Nm = Names[I];
    bool Opt = R.chance(50);
    Do.push_back([&, Nm, Opt] {
      FB.makeFeature<vfe::BinaryFeature>(Nm, Opt);
      Note(js::Array{"make_binary_feature", Nm, Opt});
    });
    if (R.chance(97)) {
      auto P = R.chance(97) ? Names[R.below(I)] : "nobody";
      Do.push_back([&, Nm, P] {
        FB.addEdge(P, Nm);
        Note(js::Array{"add_an_edge", P, Nm});
      });
    }
  }
  for (auto &P : Names) {
    if (R.chance(15)) {
      bool Or = R.chance(50);
      Do.push_back([&, P, Or] {
        FB.emplaceRelationship(Or ? RKind::RK_OR : RKind::RK_ALTERNATIVE, P);
        Note(js::Array{"emplace_relationship", P, Or ? "OR" : "XOR"});
      });
    }
  }
  for (auto K = R.below(3); K; --K) {
    Do.push_back([&] {
      vfe::ConstraintBuilder B;
      auto Cs = consCalls(R, B, Names, R.chance(10));
      auto C = B.build();
      bool Bl = R.chance(60);
      Calls.push_back(js::Array{"constraint", Bl ? "bool" : "nonbool", std::move(Cs)});
      if (!C) {
        Log.push_back(nullptr);
        return;
      }
      Log.push_back(true);
      if (Bl) {
        FB.addConstraint(std::make_unique<FM::BooleanConstraint>(std::move(C)));
      } else {
        FB.addConstraint(std::make_unique<FM::NonBooleanConstraint>(std::move(C)));
      }
    });
  }
  if (R.chance(90)) {
    Do.push_back([&] {
      FB.makeRoot("root");
      Note(js::Array{"make_root", "root"});
    });
  }
  auto Text = [&](const char *F) {
    auto T = genText(R, true, false);
    Note(js::Array{F, T});
    return T;
  };
  Do.push_back([&] { FB.setVmName(Text("set_vm_name")); });
  Do.push_back([&] { FB.setPath(Text("set_path")); });
  Do.push_back([&] { FB.setCommit(Text("set_commit")); });
  if (R.chance(30)) {
    Do.pop_back();
  }
  R.shuffle(Do);
  for (auto &D : Do) {
    D();
  }
  auto M = FB.buildFeatureModel();
  return {js::Object{{"kind", "builder"}, {"calls", std::move(Calls)}}, js::Array{std::move(Log), model(M)}};
}
Scn standalone(Rng &R) {
  js::Array Fs, W, Ls, LW, Eq, Ps, PEq;
  for (auto N = R.below(4); N; --N) {
    std::string Name = R.pick(std::vector<std::string>{"A", "foo", "with space", "\xc3\xa4", ""});
    std::string Kind = R.pick(std::vector<std::string>{"root", "binary", "numeric"});
    bool Opt = R.chance(50), Given = false;
    std::vector<FSR> L;
    vfe::NumericFeature::ValuesVariantType V;
    auto Vs = values(R, V);
    auto Lj = locList(R, L, Given);
    std::string Out = R.chance(50) ? genText(R, true, false) : "";
    js::Value Oj = nullptr;
    if (Given && R.chance(60)) {
      Oj = Out;
    } else {
      Out = "";
    }
    std::unique_ptr<vfe::Feature> F;
    if (Kind == "root") {
      F = std::make_unique<vfe::RootFeature>(Name);
    } else if (Kind == "binary") {
      F = std::make_unique<vfe::BinaryFeature>(Name, Opt, L, Out);
    } else {
      F = std::make_unique<vfe::NumericFeature>(Name, V, Opt, L, Out);
    }
    Fs.push_back(js::Object{{"kind", Kind}, {"name", Name}, {"opt", Opt}, {"values", Vs}, {"locs", Lj}, {"out", Oj}});
    W.push_back(feature(F.get()));
    js::Array St;
    for (auto &X : F->getLocations()) {
      St.push_back(pos(X.getStart()));
    }
    W.push_back(js::Array{std::move(St), Name});
  }
  std::vector<FSR> L;
  std::vector<MLoc> Made;
  for (auto N = R.below(4); N; --N) {
    auto X = !Made.empty() && R.chance(40) ? R.pick(Made) : aLoc(R);
    if (R.chance(20)) {
      X.Iness = !X.Iness;
    }
    Made.push_back(X);
    int Args = static_cast<int>(1 + R.below(4));
    Ls.push_back(locSpec(X, Args));
    L.push_back(mk(X, Args));
  }
  for (auto &X : L) {
    LW.push_back(loc(X));
    Ps.push_back(pos(X.getStart()));
    js::Array E, PE;
    for (auto &Y : L) {
      E.push_back(Y == X);
      if (!Y.getStart()) {
        PE.push_back(nullptr);
      } else {
        PE.push_back(X.getStart() && *Y.getStart() == *X.getStart());
      }
    }
    Eq.push_back(std::move(E));
    PEq.push_back(std::move(PE));
  }
  W.push_back(std::move(LW));
  W.push_back(std::move(Eq));
  W.push_back(std::move(Ps));
  W.push_back(std::move(PEq));
  return {js::Object{{"kind", "standalone"}, {"features", std::move(Fs)}, {"locations", std::move(Ls)}}, std::move(W)};
}
Scn files(Rng &R) {
  js::Array Ts, W;
  for (auto N = 1 + R.below(4); N; --N) {
    auto T = xmlOf(R, docModel(R));
    bool Missing = R.chance(8);
    switch (Missing ? 9 : R.below(7)) {
    case 0: T.resize(R.below(T.size())); while (!llvm::json::isUTF8(T)) { T.pop_back(); } break;
    case 1: T.insert(T.rfind("</vm>"), "<x/>"); break;
    case 2: {
      auto P = T.find("<name>");
      if (P != std::string::npos) {
        T.erase(P, 6);
      }
      break;
    }
    case 3: {
      auto P = T.find("</parent>");
      if (P != std::string::npos) {
        T.insert(P, "nobody");
      }
      break;
    }
    case 4: T = genText(R, true, false); break;
    default: break;
    }
    auto P = Dir + "/f.xml";
    if (Missing) {
      P = Dir + "/no.xml";
      Ts.push_back(nullptr);
    } else {
      spit(P, T);
      Ts.push_back(T);
    }
    bool V = vfe::verifyFeatureModel(P);
    W.push_back(js::Array{V, model(vfe::loadFeatureModel(P))});
  }
  return {js::Object{{"kind", "files"}, {"texts", std::move(Ts)}}, std::move(W)};
}

//===-------------------------------------------------------------------===//
std::string text(const js::Value &V) {
  std::string S;
  llvm::raw_string_ostream O(S);
  O << V;
  return O.str();
}
// first difference
std::string differ(const js::Value &A, const js::Value &B, const std::string &At = "") {
  if (A == B) {
    return "";
  }
  if (A.kind() == js::Value::Object && B.kind() == js::Value::Object) {
    for (auto &[K, V] : *A.getAsObject()) {
      auto *X = B.getAsObject()->get(K);
      if (!X) {
        return At + "." + K.str() + " is missing";
      }
      auto D = differ(V, *X, At + "." + K.str());
      if (!D.empty()) {
        return D;
      }
    }
  } else if (A.kind() == js::Value::Array && B.kind() == js::Value::Array) {
    auto &X = *A.getAsArray(), &Y = *B.getAsArray();
    for (size_t I = 0; I < std::min(X.size(), Y.size()); ++I) {
      auto D = differ(X[I], Y[I], At + "[" + std::to_string(I) + "]");
      if (!D.empty()) {
        return D;
      }
    }
    return At + ": " + std::to_string(X.size()) + " and " + std::to_string(Y.size()) + " elements";
  }
  return At + ": C++ " + text(A) + "\nPython " + text(B);
}
int python(std::string &Err) {
  auto *Lib = getenv("VERIF_PYDIR");
  auto *Rt = getenv("VERIF_PYRT");
  auto *Drv = getenv("VERIF_PYDRV");
  if (!Lib || !Rt || !Drv) {
    return 127;
  }
  auto E = Dir + "/err";
  pid_t Pid = fork();
  if (Pid == 0) {
    int FE = open(E.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(FE, 1);
    dup2(FE, 2);
    setenv("PYTHONPATH", Lib, 1);
    setenv("LD_PRELOAD", Rt, 1);
    setenv("PYTHONMALLOC", "malloc", 1);
    setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
    setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=77:abort_on_error=0:detect_stack_use_after_return=1", 1);
    setenv("UBSAN_OPTIONS", "print_stacktrace=1", 1);
    setenv("PYTHONHASHSEED", "0", 1);
    execl("/usr/bin/python3", "python3", Drv, Dir.c_str(), nullptr);
    _exit(127);
  }
  int St = 0;
  waitpid(Pid, &St, 0);
  Err = slurp(E);
  unlink(E.c_str());
  return WIFEXITED(St) ? WEXITSTATUS(St) : 1000 + WTERMSIG(St);
}
void play(Ctx &C, std::vector<Scn> S) {
  js::Array In;
  for (auto &[Do, W] : S) {
    In.push_back(Do);
  }
  unlink((Dir + "/out.json").c_str());
  spit(Dir + "/in.json", text(std::move(In)));
  std::string Err;
  int Rc = python(Err);
  if (Rc != 0) {
    auto At = slurp(Dir + "/at");
    size_t I = At.empty() ? 0 : std::stoul(At);
    if (Err.size() > 4000) {
      Err = Err.substr(0, 3900);
    }
    C.fail("interpreter", "python ends with " + std::to_string(Rc) + " in\n" + (I < S.size() ? text(S[I].first).substr(0, 3000) : "") + "\n" + Err);
    return;
  }
  auto Out = js::parse(slurp(Dir + "/out.json"));
  if (!Out || !Out->getAsArray() || Out->getAsArray()->size() != S.size()) {
    llvm::consumeError(Out.takeError());
    C.fail("driver", "no results\n" + Err);
    return;
  }
  for (size_t I = 0; I < S.size(); ++I) {
    auto &Got = (*Out->getAsArray())[I];
    auto Kind = S[I].first.getAsObject()->getString("kind")->str();
    C.note(Kind);
    C.distinct(text(S[I].first));
    if (auto *O = Got.getAsObject()) {
      if (auto X = O->getString("exception")) {
        C.fail("exception", Kind + ": " + X->str() + "\n" + text(S[I].first).substr(0, 3000));
        continue;
      }
    }
    // compare what both would print
    auto Want = js::parse(text(S[I].second));
    auto D = Want ? differ(*Want, Got) : "expectation unreadable";
    if (!Want) {
      llvm::consumeError(Want.takeError());
    }
    C.check(D.empty(), "differs", Kind + ": " + D + "\n" + text(S[I].first).substr(0, 3000));
  }
}
Scn misuse(Rng &R) {
  Scn S{js::Object{{"kind", "misuse"}, {"xml", xmlOf(R, docModel(R))}}, js::Array{}};
  return S;
}
void run(Ctx &C) {
  scratch();
  auto &R = C.R;
  std::vector<Scn> S;
  for (int I = 0; I < 12; ++I) {
    auto K = R.below(100);
    S.push_back(K < 38   ? history(R)
                : K < 50 ? keep(R)
                : K < 64 ? constraint(R)
                : K < 78 ? builder(R)
                : K < 90 ? standalone(R)
                : K < 96 ? files(R)
                         : misuse(R));
  }
  C.sample(text(S[0].first));
  play(C, std::move(S));
}
} // namespace
int main(int Argc, char **Argv) { return harnessMain(Argc, Argv, run, {}); }
