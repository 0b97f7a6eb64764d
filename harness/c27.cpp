// C27: every operation gives back the memory (and files) it takes, also when it fails.
//
// The workloads are the cases of all other in-process monitors, repeated in one
// process with the allocator's live-byte count read after each repetition, and
// own ones for operations that fail or are abandoned half-way.
#include "ops.h"
#include "solve.h"
#include "sxfm.h"
#include "vara/Feature/FeatureModelParser.h"
#include "vara/Feature/FeatureModelWriter.h"
#include "vara/Sampling/SampleSetWriter.h"
#include "vara/Solver/ConfigurationFactory.h"
#include "vara/Solver/SolverFactory.h"
#include "vara/Solver/Z3Solver.h"
#include "llvm/Support/raw_ostream.h"
#include <dirent.h>
#include <fstream>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <sys/stat.h>
using namespace vf;

#define PARTS(X)                                                                                                       \
  X(c01) X(c02) X(c03) X(c04) X(c05) X(c06) X(c07) X(c08) X(c09) X(c10) X(c11) X(c12) X(c13) X(c14) X(c15) X(c16)      \
      X(c17) X(c18) X(c19) X(c20) X(c21) X(c24) X(c25) X(c26)
#define DECL(N) int main_##N(int, char **);
PARTS(DECL)

namespace {
//===--------------------------------------------------------------------===//
// Own workloads
//===--------------------------------------------------------------------===//
void breakText(Rng &R, std::string &T) {
  for (auto K = R.below(4); K > 0 && !T.empty(); --K) {
    auto P = R.below(T.size());
    switch (R.below(6)) {
    case 0: T.erase(P); break;
    case 1: T.erase(P, R.range(1, 12)); break;
    case 2: T.insert(P, std::vector<std::string>{"<", ">", "&amp;", "&x;", "</vm>", "\"", "<!--", "]]>", "(", ")", "9", "=>"}[R.below(12)]); break;
    case 3: T[P] = static_cast<char>(R.range(1, 255)); break;
    case 4: T.insert(P, T.substr(R.below(T.size()), R.range(1, 200))); break;
    default: T.insert(P, 1, static_cast<char>(R.range(32, 126))); break;
    }
  }
}
GenOpt someModel(Rng &R) {
  GenOpt O;
  if (R.chance(50)) {
    O.Groups = 0;
    O.FullLocs = true;
    O.Textual = true;
    O.XmlRoot = true;
  }
  return O;
}

void readers(Ctx &C) {
  auto &R = C.R;
  if (R.chance(60)) {
    GenOpt O;
    O.Groups = 0;
    O.FullLocs = true;
    O.Textual = true;
    O.XmlRoot = true;
    auto T = XmlOut(R, genModel(R, O), {true}).text();
    if (R.chance(80)) {
      breakText(R, T);
    }
    C.note("xml_texts");
    vfe::FeatureModelXmlParser P(T);
    C.note(static_cast<bool>(P.verifyFeatureModel()) ? "xml_valid" : "xml_invalid");
    auto M = P.buildFeatureModel();
    C.note(M ? "xml_loaded" : "xml_refused");
    if (M) {
      auto D = M->clone();
    }
  } else {
    auto D = genSxfm(R);
    auto T = sxfmWrap(R, D, R.chance(50));
    if (R.chance(80)) {
      breakText(R, T);
    }
    C.note("sxfm_texts");
    vfe::FeatureModelSxfmParser P(T);
    bool V = P.verifyFeatureModel();
    auto M = P.buildFeatureModel();
    C.note(M ? "sxfm_loaded" : "sxfm_refused");
    (void)V;
  }
}
void files(Ctx &C) {
  auto &R = C.R;
  auto Dir = "c27-" + std::to_string(getpid());
  ::mkdir(Dir.c_str(), 0755);
  auto P = Dir + "/m.xml";
  GenOpt O;
  O.Groups = 0;
  O.FullLocs = true;
  O.Textual = true;
  O.XmlRoot = true;
  auto M = genModel(R, O);
  {
    std::ofstream F(P, std::ios::binary);
    auto T = XmlOut(R, M, {true}).text();
    if (R.chance(50)) {
      breakText(R, T);
    }
    F << T;
  }
  for (auto &X : {P, Dir, Dir + "/missing.xml", std::string(), std::string("/dev/null")}) {
    bool V = vfe::verifyFeatureModel(X);
    auto L = vfe::loadFeatureModel(X);
    C.note(L ? "file_loaded" : "file_refused");
    C.check(V || !L, "unverified", "loaded although it does not verify");
  }
  auto L = build(R, M);
  for (auto &X : {P, Dir, Dir + "/missing/x.xml", std::string(), std::string("/dev/full")}) {
    C.note(vfe::FeatureModelXmlWriter(*L).writeFeatureModel(X) == 0 ? "file_written" : "file_not_written");
  }
  ::unlink(P.c_str());
  ::rmdir(Dir.c_str());
}
void writers(Ctx &C) {
  auto &R = C.R;
  auto O = someModel(R);
  auto M = genModel(R, O);
  auto L = build(R, M);
  switch (R.below(4)) {
  case 0: // beyond the format, at any place
    for (auto *F : std::as_const(*L)) {
      if (R.chance(30)) {
        F->addLocation(vfe::FeatureSourceRange("p.cpp"));
      }
    }
    break;
  case 1:
    vfe::addFeature(*L, std::make_unique<vfe::NumericFeature>("novalues", std::vector<int64_t>{}, false), L->getRoot());
    break;
  default: break;
  }
  auto T = vfe::FeatureModelXmlWriter(*L).writeFeatureModel();
  C.note(T ? "written" : "not_written");
  for (auto *F : std::as_const(*L)) {
    std::string S;
    llvm::raw_string_ostream Os(S);
    S += F->toString();
    for (auto *X : F->constraints()) {
      S += X->getRoot()->toString() + X->getRoot()->toHTML();
      auto D = X->clone();
    }
  }
}
void builders(Ctx &C) {
  auto &R = C.R;
  auto M = genModel(R, someModel(R));
  if (!builderExpressible(M)) {
    return;
  }
  vfe::FeatureModelBuilder B;
  describe(R, M, B);
  auto Any = [&] {
    auto I = M.F.begin();
    std::advance(I, R.below(M.F.size()));
    return I->first;
  };
  for (auto K = R.below(3); K > 0; --K) {
    switch (R.below(6)) {
    case 0: B.addEdge(Any(), Any()); break;
    case 1: B.addEdge("nowhere", Any()); break;
    case 2: B.addEdge(Any(), "nowhere"); break;
    case 3: B.makeFeature<vfe::BinaryFeature>(Any(), true); break;
    case 4: B.makeRoot("anotherroot"); break;
    default: {
      vfe::ConstraintBuilder CB;
      CB.feature("nowhere").implies().feature(Any());
      B.addConstraint(std::make_unique<FM::BooleanConstraint>(CB.build()));
    }
    }
  }
  if (R.chance(10)) {
    C.note("builder_abandoned");
    return;
  }
  auto L = B.buildFeatureModel();
  C.note(L ? "built" : "not_built");
  if (!L && R.chance(30)) {
    auto Again = B.buildFeatureModel(); // what is left of it
  }
}
void txs(Ctx &C) {
  auto &R = C.R;
  auto O = someModel(R);
  O.XmlRoot = false;
  auto M = genModel(R, O);
  auto L = buildTx(R, M);
  if (!L) {
    return;
  }
  auto Some = [&](FM &X) -> vfe::Feature * {
    std::vector<vfe::Feature *> V;
    for (auto *F : std::as_const(X)) {
      V.push_back(F);
    }
    return V[R.below(V.size())];
  };
  auto New = [&]() -> std::unique_ptr<vfe::Feature> {
    auto N = R.chance(70) ? "new" + std::to_string(R.below(6)) : Some(*L)->getName().str();
    if (R.chance(50)) {
      return std::make_unique<vfe::BinaryFeature>(N, true, std::vector<FSR>{FSR("a.cpp")});
    }
    return std::make_unique<vfe::NumericFeature>(N, std::make_pair(int64_t(0), int64_t(3)), false);
  };
  auto Cons = [&] {
    vfe::ConstraintBuilder B;
    B.feature(R.chance(70) ? Some(*L)->getName().str() : "nowhere").implies().feature(Some(*L)->getName().str());
    return std::make_unique<FM::BooleanConstraint>(B.build());
  };
  if (R.chance(50)) {
    auto T = vfe::FeatureModelCopyTransaction::openTransaction(*L);
    for (auto K = R.below(6); K > 0; --K) {
      switch (R.below(5)) {
      case 0:
      case 1: (void)T.addFeature(New(), R.chance(90) ? Some(*L) : nullptr); break;
      case 2: { vfe::detail::FeatureVariantTy V = Some(*L); T.removeFeature(V, R.chance(50)); }; break;
      case 3: T.addConstraint(Cons()); break;
      default: (void)T.addRelationship(vfe::Relationship::RelationshipKind::RK_OR, Some(*L)->getName().str()); break;
      }
    }
    if (R.chance(60)) {
      auto Res = T.commit();
      C.note("copy_committed");
    } else {
      T.abort();
      C.note("copy_aborted");
    }
  } else {
    auto T = vfe::FeatureModelModifyTransaction::openTransaction(*L);
    bool Removes = false;
    for (auto K = R.below(6); K > 0; --K) {
      switch (R.below(5)) {
      case 0:
      case 1: T.addFeature(New(), !Removes && R.chance(90) ? Some(*L) : nullptr); break;
      case 2: { // handles of features that the transaction removes must not be used after
        vfe::detail::FeatureVariantTy V = Some(*L);
        if (Removes || R.chance(50)) {
          V = Some(*L)->getName().str();
        }
        T.removeFeature(V, R.chance(50));
        Removes = true;
        break;
      }
      case 3: T.addConstraint(Cons()); break;
      default: T.addRelationship(vfe::Relationship::RelationshipKind::RK_OR, Some(*L)->getName().str()); break;
      }
    }
    switch (R.below(3)) {
    case 0: (void)T.commit(); C.note("modify_committed"); break;
    case 1: T.abort(); C.note("modify_aborted"); break;
    default: C.note("modify_dropped"); break;
    }
  }
}
void abandoned(Ctx &C) {
  auto &R = C.R;
  auto M = genModel(R, solvable());
  auto L = build(R, M);
  switch (R.below(4)) {
  case 0: { // enumeration given up after a while
    auto I = vara::solver::ConfigurationFactory::getConfigIterator(*L);
    auto N = R.below(5);
    for (auto It = I.begin(); N > 0 && It != I.end(); ++It, --N) {
      (void)*It;
    }
    C.note("enumerations_abandoned");
    break;
  }
  case 1: {
    auto S = vara::solver::SolverFactory::initializeSolver(*L, vara::solver::SolverType::Z3);
    (void)S->hasValidConfigurations();
    for (auto N = R.below(4); N > 0; --N) {
      (void)S->getNextConfiguration();
      (void)S->getCurrentConfiguration();
    }
    C.note("solvers_abandoned");
    break;
  }
  case 2: { // refused by the solver
    auto S = vara::solver::Z3Solver::create();
    vfe::BinaryFeature F("orphan");
    vfe::NumericFeature N("n", std::vector<int64_t>{1, 2}, false);
    (void)S->addFeature(F);
    vfe::RootFeature Root("root");
    (void)S->addFeature(Root);
    (void)S->addFeature(Root);
    (void)S->addFeature(N);
    (void)S->addFeature(N);
    (void)S->removeFeature(F);
    auto X = genBool(R, 3, {"root", "missing"}, {}, false);
    auto K = toLib(X);
    (void)S->addConstraint(*K);
    (void)S->getNextConfiguration();
    (void)S->hasValidConfigurations();
    C.note("solver_refusals");
    break;
  }
  default: {
    auto N = R.below(6);
    auto V = vara::solver::ConfigurationFactory::getNConfigs(*L, N);
    C.note("some_configurations");
  }
  }
}
void configurations(Ctx &C) {
  auto &R = C.R;
  std::string T = "{";
  for (auto N = R.below(5); N > 0; --N) {
    T += (T.size() > 1 ? ",\"o" : "\"o") + std::to_string(R.below(9)) + "\":\"" +
         std::vector<std::string>{"true", "12", "text", "\\u00e4", "-7"}[R.below(5)] + "\"";
  }
  T += "}";
  if (R.chance(60)) {
    breakText(R, T);
  }
  auto X = vfe::Configuration::createConfigurationFromString(T);
  C.note(X ? "json_read" : "json_refused");
  if (X) {
    auto D = X->dumpToString();
    auto Y = vfe::Configuration::createConfigurationFromString(D);
    X->setConfigurationOption("o1", "again");
    X->addConfigurationOption(std::make_unique<vfe::ConfigurationOption>("o1", "and again"));
    (void)X->configurationOptionValue("o2");
    auto L = build(R, genModel(R, solvable()));
    std::vector<std::unique_ptr<vfe::Configuration>> All;
    All.push_back(std::move(X));
    if (Y) {
      All.push_back(std::move(Y));
    }
    auto S = vara::sampling::SampleSetWriter::writeConfigurations(*L, All);
  }
}
void formulas(Ctx &C) {
  auto &R = C.R;
  auto Names = genNames(R, 4);
  Spell Sp;
  auto T = text(genAny(R, 4, Names, true), Sp);
  if (R.chance(70)) {
    breakText(R, T);
  }
  auto P = vfe::ConstraintParser(T).buildConstraint();
  C.note(P ? "constraint_read" : "constraint_refused");
  if (P) {
    auto D = P->clone();
  }
  std::string S = std::vector<std::string>{"x + 1", "2 * x", "x ^ 2", "1.5 ^ x", "x / 2", "foo * 3"}[R.below(6)];
  if (R.chance(60)) {
    breakText(R, S);
  }
  auto F = vfe::StepFunctionParser(S).buildStepFunction();
  C.note(F ? "step_read" : "step_refused");
  if (F) {
    (void)(*F)(3.0);
  }
  // calls in any order, and builders that are dropped
  vfe::ConstraintBuilder B;
  for (auto K = R.below(12); K > 0; --K) {
    switch (R.below(9)) {
    case 0: B.openPar(); break;
    case 1: B.closePar(); break;
    case 2:
    case 3: B.feature(R.pick(Names)); break;
    case 4: B.constant(static_cast<int>(R.range(0, 9))); break;
    case 5: B.lNot(); break;
    case 6: B.implies(); break;
    case 7: B.lAnd(); break;
    default: B.add(); break;
    }
  }
  if (R.chance(80)) {
    C.note(B.build() ? "calls_built" : "calls_refused");
  }
}
struct Work {
  std::string Name;
  CaseFn Fn;
};

//===--------------------------------------------------------------------===//
// Live allocations of one repetition, for the report
//===--------------------------------------------------------------------===//
constexpr size_t Slots = 1 << 20;
struct Live {
  const volatile void *P;
  size_t Size;
};
Live *Table = nullptr;
bool Tracking = false;
size_t slotOf(const volatile void *P) { return (reinterpret_cast<uintptr_t>(P) >> 4) * 0x9e3779b97f4a7c15ull >> 44; }
void onMalloc(const volatile void *P, size_t N) {
  if (!Tracking || !P) {
    return;
  }
  for (size_t I = slotOf(P), K = 0; K < 64; ++K, I = (I + 1) % Slots) {
    if (!Table[I].P || Table[I].P == P) {
      Table[I] = {P, N};
      return;
    }
  }
}
void onFree(const volatile void *P) {
  if (!Tracking || !P) {
    return;
  }
  for (size_t I = slotOf(P), K = 0; K < 64; ++K, I = (I + 1) % Slots) {
    if (Table[I].P == P) {
      Table[I] = {reinterpret_cast<const volatile void *>(1), 0};
      return;
    }
  }
}

size_t openFiles() {
  size_t N = 0;
  if (auto *D = ::opendir("/proc/self/fd")) {
    while (::readdir(D)) {
      ++N;
    }
    ::closedir(D);
  }
  return N;
}

std::vector<Work> Works, Fixed;

struct Used {
  size_t Bytes;
  size_t Files;
};
Used repeat(CaseFn Fn, const Ctx &C, FILE *Null, uint64_t Case) {
  {
    Stats St;
    Ctx Inner(St, Null, C.Seed, Case, C.Thorough, false);
    Fn(Inner);
  }
  return {__sanitizer_get_current_allocated_bytes(), openFiles()};
}

std::string sites(CaseFn Fn, const Ctx &C, FILE *Null, uint64_t Case) {
  static Live Storage[Slots];
  Table = Storage;
  std::fill(Storage, Storage + Slots, Live{nullptr, 0});
  static bool Hooked = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree) != 0;
  if (!Hooked) {
    return "";
  }
  {
    Stats St;
    Ctx Inner(St, Null, C.Seed, Case, C.Thorough, false);
    Tracking = true;
    Fn(Inner);
    Tracking = false;
    // whatever the inner context logged belongs to it
  }
  std::map<std::string, std::pair<size_t, size_t>> By;
  for (auto &L : Storage) {
    auto *P = const_cast<void *>(L.P);
    if (reinterpret_cast<uintptr_t>(P) <= 1 || !__sanitizer_get_ownership(P)) {
      continue; // freed with the context
    }
    void *Trace[24];
    int Tid = 0;
    auto N = __asan_get_alloc_stack(P, Trace, 24, &Tid);
    std::string S;
    for (size_t I = 0; I < N; ++I) {
      char Buf[400];
      __sanitizer_symbolize_pc(Trace[I], "%f %s:%l", Buf, sizeof(Buf));
      std::string F = Buf;
      if (F.find("/repo/") != std::string::npos || F.find("/verif/") != std::string::npos) {
        S += "  " + F + "\n";
      }
    }
    auto &B = By[S];
    B.first += L.Size;
    ++B.second;
  }
  std::string Out;
  for (auto &[S, B] : By) {
    Out += std::to_string(B.first) + " bytes in " + std::to_string(B.second) + " objects from\n" + S;
    if (Out.size() > 6000) {
      break;
    }
  }
  return Out;
}

void run(Ctx &C) {
  static FILE *Null = std::fopen("/dev/null", "w");
  bool IsFixed = C.Case < Fixed.size();
  auto &W = IsFixed ? Fixed[C.Case] : Works[C.Case % Works.size()];
  auto Inner = IsFixed ? 0 : C.Case / Works.size();
  C.say("workload " + W.Name + " case " + std::to_string(Inner));
  repeat(W.Fn, C, Null, Inner); // fills caches
  auto A = repeat(W.Fn, C, Null, Inner);
  auto B = repeat(W.Fn, C, Null, Inner);
  C.note("repetitions", 3);
  C.note("work_" + W.Name);
  C.distinct(W.Name + std::to_string(Inner));
  if (B.Bytes == A.Bytes && B.Files == A.Files) {
    return;
  }
  C.note("looked_at_again");
  // memory kept for later use stops growing; what is lost grows every time
  bool Bytes = B.Bytes > A.Bytes, Files = B.Files > A.Files;
  size_t First = B.Bytes;
  int More = 8;
  for (int I = 0; I < More && (Bytes || Files); ++I) {
    A = B;
    B = repeat(W.Fn, C, Null, Inner);
    Bytes = Bytes && B.Bytes > A.Bytes;
    Files = Files && B.Files > A.Files;
  }
  if (Bytes) {
    C.fail("leak", W.Name + ": every repetition keeps memory, " + std::to_string((B.Bytes - First) / More) +
                       " bytes each\n" + sites(W.Fn, C, Null, Inner));
  }
  if (Files) {
    C.fail("open-files", W.Name + ": every repetition keeps files open");
  }
}
} // namespace

int main(int Argc, char **Argv) {
  Works = {{"readers", readers},       {"files", files}, {"writers", writers},
           {"builders", builders},     {"txs", txs},     {"abandoned", abandoned},
           {"configurations", configurations}, {"formulas", formulas}};
  // overflows the stack (known), runs other programs, long sweeps of cases like the random ones
  const std::set<std::string> Skip{"deep-nesting", "pyyaml", "shapes", "ranges", "small-trees", "operators", "extremes", "orders"};
  std::vector<Part> Parts;
  collector() = &Parts;
#define CALL(N)                                                                                                        \
  {                                                                                                                    \
    auto Before = Parts.size();                                                                                        \
    main_##N(0, nullptr);                                                                                              \
    for (auto I = Before; I < Parts.size(); ++I) {                                                                     \
      Works.push_back({#N, Parts[I].Fn});                                                                              \
      for (auto &P : Parts[I].Probes) {                                                                                \
        std::string Name = P.Name;                                                                                     \
        if (!Skip.count(Name)) {                                                                                       \
          Fixed.push_back({std::string(#N) + ":" + Name, P.Fn});                                                       \
        }                                                                                                              \
      }                                                                                                                \
    }                                                                                                                  \
  }
  PARTS(CALL)
  collector() = nullptr;
  return harnessMain(Argc, Argv, run, {});
}
