// C28: separate models can be used by separate threads, and one model can be read
// by several at once.
//
// Threads run the cases of the other in-process monitors (each with its own oracle)
// side by side, and read one shared model in different orders; the thread sanitizer
// watches every access of the library, and what a thread obtains has to be what it
// obtains alone.
#include "ops.h"
#include "solve.h"
#include "sxfm.h"
#include "vara/Feature/ConstraintParser.h"
#include "vara/Configuration/Configuration.h"
#include "vara/Feature/FeatureModelParser.h"
#include "vara/Feature/FeatureModelWriter.h"
#include "vara/Feature/StepFunctionParser.h"
#include "vara/Sampling/SampleSetWriter.h"
#include "vara/Solver/ConfigurationFactory.h"
#include "vara/Solver/SolverFactory.h"
#include "vara/Solver/Z3Solver.h"
#include <atomic>
#include <functional>
#include <libxml/parser.h>
#include <thread>
using namespace vf;

#define PARTS(X)                                                                                                       \
  X(c01) X(c02) X(c03) X(c04) X(c05) X(c06) X(c07) X(c08) X(c09) X(c10) X(c11) X(c12) X(c13) X(c14) X(c15) X(c16)      \
      X(c17) X(c18) X(c19) X(c20) X(c21) X(c24) X(c25) X(c26)
#define DECL(N) int main_##N(int, char **);
PARTS(DECL)

namespace {
using Rules = vfe::FeatureModelConsistencyChecker<vfe::EveryFeatureRequiresParent, vfe::CheckFeatureParentChildRelationShip,
                                                  vfe::ExactlyOneRootNode>;
struct Work {
  std::string Name;
  CaseFn Fn;
};
std::vector<Work> Works;

// All threads start together, as the first thing a process does with the library.
struct Gate {
  std::atomic<int> Waiting;
  explicit Gate(int N) : Waiting(N) {}
  void pass() {
    Waiting.fetch_sub(1, std::memory_order_relaxed);
    while (Waiting.load(std::memory_order_relaxed) > 0) {
      std::this_thread::yield();
    }
  }
};

// The order in which the threads' tasks began and ended.  Relaxed: the log must not
// order what the threads do.
struct Events {
  std::atomic<uint64_t> Next{0};
  std::vector<std::vector<std::pair<uint64_t, uint64_t>>> At; // per thread: begin, end
  explicit Events(size_t N) : At(N) {}
  template <class F> void task(size_t Thread, F Fn) {
    auto B = Next.fetch_add(1, std::memory_order_relaxed);
    Fn();
    At[Thread].push_back({B, Next.fetch_add(1, std::memory_order_relaxed)});
  }
  void note(Ctx &C, const std::string &What) const {
    std::map<uint64_t, std::string> M;
    for (size_t T = 0; T < At.size(); ++T) {
      for (auto &[B, E] : At[T]) {
        M[B] = "b" + std::to_string(T);
        M[E] = "e" + std::to_string(T);
      }
    }
    std::string S;
    uint64_t Open = 0, Max = 0, Next = 0;
    for (auto &[K, X] : M) {
      S += X + " ";
      if (X[0] == 'b') {
        Next += Open > 0;
        Max = std::max(Max, ++Open);
      } else {
        --Open;
      }
    }
    C.say("interleaving: " + S);
    C.note("overlapping_tasks", Next);
    C.note("most_at_once_" + std::to_string(Max));
    C.distinct(What + S);
  }
};

//===--------------------------------------------------------------------===//
// Each thread its own models
//===--------------------------------------------------------------------===//
struct Task {
  const Work *W;
  uint64_t Case;
};
struct Outcome {
  uint64_t Fails = 0;
  std::string Text;
};

Outcome runTask(const Task &T, uint64_t Seed, bool Thorough) {
  Outcome O;
  char *Buf = nullptr;
  size_t Size = 0;
  FILE *F = open_memstream(&Buf, &Size);
  {
    Stats St;
    Ctx Inner(St, F, Seed, T.Case, Thorough, false);
    T.W->Fn(Inner);
    O.Fails = St.Fails;
  }
  std::fclose(F);
  O.Text.assign(Buf, Size);
  std::free(Buf);
  return O;
}

void separate(Ctx &C) {
  auto &R = C.R;
  int N = static_cast<int>(R.range(2, 5));
  // often threads do the same kind of work, so that they are in the same code
  std::vector<const Work *> Kinds;
  for (auto K = R.range(1, 3); K > 0; --K) {
    Kinds.push_back(&R.pick(Works));
  }
  bool Any = R.chance(25);
  std::vector<std::vector<Task>> Tasks(N);
  for (auto &L : Tasks) {
    for (auto K = R.range(1, 4); K > 0; --K) {
      auto *W = Any ? &R.pick(Works) : R.pick(Kinds);
      L.push_back({W, R.below(100000)});
      C.note("tasks");
      C.note("work_" + W->Name);
    }
  }
  std::string All;
  for (int I = 0; I < N; ++I) {
    std::string S = "thread " + std::to_string(I) + ":";
    for (auto &T : Tasks[I]) {
      S += " " + T.W->Name + "/" + std::to_string(T.Case);
    }
    C.say(S);
    All += S;
  }
  Events Ev(N);
  std::vector<std::vector<Outcome>> Got(N);
  {
    Gate G(N);
    std::vector<std::thread> Threads;
    for (int I = 0; I < N; ++I) {
      Threads.emplace_back([&, I] {
        G.pass();
        for (auto &T : Tasks[I]) {
          Ev.task(I, [&] { Got[I].push_back(runTask(T, C.Seed, C.Thorough)); });
        }
      });
    }
    for (auto &T : Threads) {
      T.join();
    }
  }
  C.note("threads", N);
  Ev.note(C, All);
  for (int I = 0; I < N; ++I) {
    for (size_t K = 0; K < Tasks[I].size(); ++K) {
      if (Got[I][K].Fails == 0) {
        continue;
      }
      C.note("looked_at_alone");
      // what fails alone as well belongs to another property
      if (runTask(Tasks[I][K], C.Seed, C.Thorough).Fails == 0) {
        C.fail("separate", Tasks[I][K].W->Name + "/" + std::to_string(Tasks[I][K].Case) +
                               " fails only next to other threads: " + Got[I][K].Text);
      }
    }
  }
}

//===--------------------------------------------------------------------===//
// One model read by all threads
//===--------------------------------------------------------------------===//
struct Reader {
  std::string Name;
  std::function<std::string()> Fn;
};

std::string order(const FM &M) {
  std::string S;
  for (auto *F : M) {
    S += F->getName().str() + ",";
  }
  return S;
}

void shared(Ctx &C) {
  auto &R = C.R;
  GenOpt O;
  bool Solve = R.chance(35), Xml = R.chance(60);
  if (Solve) {
    O = solvable();
    O.MaxF = 4;
  }
  if (Xml) {
    O.Groups = 0;
    O.FullLocs = true;
    O.Textual = true;
    O.XmlRoot = true;
  }
  auto D = genModel(R, O);
  auto P = build(R, D);
  if (!P) {
    C.note("not_built");
    return;
  }
  FM &M = *P;
  const FM &CM = M;
  std::vector<Reader> Rd;
  auto Add = [&](const char *N, std::function<std::string()> F) { Rd.push_back({N, std::move(F)}); };
  std::vector<std::string> Names;
  for (auto &[N, X] : D.F) {
    Names.push_back(N);
  }
  Add("snapshot", [&] {
    Problems Pr;
    auto S = canon(snap(CM, &Pr));
    return S + Pr.all();
  });
  Add("order", [&] { return order(CM); });
  Add("clone", [&] {
    auto Q = CM.clone();
    return Q ? canon(snap(*Q)) : "none";
  });
  Add("lookup", [&] {
    std::string S;
    for (auto &N : Names) {
      auto *F = CM.getFeature(N);
      S += F ? F->getName().str() + std::to_string(F->hash()) + (CM.getFeature(N + "?") ? "!" : "") + "\n" : "none";
    }
    return S;
  });
  Add("text", [&] {
    std::string S;
    for (auto *F : CM) {
      S += F->toString() + "\n";
      if (auto *NF = llvm::dyn_cast<vfe::NumericFeature>(F)) {
        if (auto *St = NF->getStepFunction()) {
          S += num12((*St)(3.0)) + St->toString() + "\n";
        }
      }
      for (auto &L : F->getLocations()) {
        S += L.toString() + "\n";
      }
    }
    return S;
  });
  Add("compare", [&] {
    std::string S;
    std::vector<vfe::Feature *> All(CM.begin(), CM.end());
    for (auto *A : All) {
      for (auto *B : All) {
        S += *A < *B ? '<' : *A == *B ? '=' : '>';
        S += A->isOptional() ? 'o' : 'm';
      }
    }
    return S;
  });
  Add("formulas", [&] {
    std::string S;
    auto Take = [&](vfe::Constraint *K) { S += K->toString() + " " + K->clone()->toHTML() + "\n"; };
    for (auto &&K : CM.booleanConstraints()) {
      Take(K->constraint());
    }
    for (auto &&K : CM.nonBooleanConstraints()) {
      Take(K->constraint());
    }
    for (auto &&K : CM.mixedConstraints()) {
      Take(K->constraint());
    }
    return S;
  });
  Add("valid", [&] { return Rules::isFeatureModelValid(CM) ? "valid" : "invalid"; });
  Add("xml", [&] {
    auto T = vfe::FeatureModelXmlWriter(M).writeFeatureModel();
    return T ? *T : "none";
  });
  Add("edit-copy", [&] {
    auto Tx = vfe::FeatureModelCopyTransaction::openTransaction(M);
    Tx.setName("copy");
    Tx.setCommit("abc");
    auto Q = Tx.commit();
    return Q ? canon(snap(*Q.extractValue())) : "none";
  });
  Add("merge", [&] {
    auto Q = vfe::mergeFeatureModels(M, M, true);
    return Q ? canon(snap(*Q)) : "none";
  });
  if (Solve) {
    Add("solve", [&] {
      auto Cs = CF::getNConfigs(M, 3);
      std::string S;
      if (Cs) {
        for (auto &X : Cs.extractValue()) {
          // which ones come first is not fixed: they have to be valid
          auto En = configEnv(D, *X);
          S += En && invalid(D, *En).empty() ? "v" : "i";
        }
      }
      return S;
    });
  }
  C.say(canon(D));
  int N = static_cast<int>(R.range(2, 5));
  std::vector<std::vector<size_t>> Plan(N);
  // often a few readers only
  std::vector<size_t> Pool;
  for (size_t I = 0; I < Rd.size(); ++I) {
    Pool.push_back(I);
  }
  if (R.chance(50)) {
    R.shuffle(Pool);
    Pool.resize(R.range(1, 4));
  }
  for (auto &L : Plan) {
    for (auto K = R.range(2, 8); K > 0; --K) {
      L.push_back(R.pick(Pool));
      C.note("read_" + Rd[L.back()].Name);
    }
  }
  Events Ev(N);
  std::vector<std::vector<std::string>> Got(N);
  {
    Gate G(N);
    std::vector<std::thread> Threads;
    for (int I = 0; I < N; ++I) {
      Threads.emplace_back([&, I] {
        G.pass();
        for (auto K : Plan[I]) {
          Ev.task(I, [&] { Got[I].push_back(Rd[K].Fn()); });
        }
      });
    }
    for (auto &T : Threads) {
      T.join();
    }
  }
  C.note("threads", N);
  Ev.note(C, canon(D));
  C.note("shared_models");
  std::map<size_t, std::string> Alone;
  for (int I = 0; I < N; ++I) {
    for (size_t J = 0; J < Plan[I].size(); ++J) {
      auto K = Plan[I][J];
      if (!Alone.count(K)) {
        Alone[K] = Rd[K].Fn();
      }
      C.note("reads_compared");
      if (Got[I][J] != Alone[K]) {
        C.fail("shared", Rd[K].Name + " read next to other threads: " + diff(Got[I][J], Alone[K]));
      }
    }
  }
}

//===--------------------------------------------------------------------===//
// Directed
//===--------------------------------------------------------------------===//
template <class F> void together(int N, F Fn) {
  Gate G(N);
  std::vector<std::thread> Threads;
  for (int I = 0; I < N; ++I) {
    Threads.emplace_back([&, I] {
      G.pass();
      Fn(I);
    });
  }
  for (auto &T : Threads) {
    T.join();
  }
}

// documents of both formats read over and over by every thread
void documents(Ctx &C) {
  GenOpt O;
  O.Groups = 0;
  O.FullLocs = true;
  O.Textual = true;
  O.XmlRoot = true;
  std::vector<std::string> Xml, Sxfm;
  for (int I = 0; I < 6; ++I) {
    Xml.push_back(XmlOut(C.R, genModel(C.R, O), {}).text());
    Sxfm.push_back(sxfmWrap(C.R, genSxfm(C.R), true));
  }
  auto Load = [&](size_t I) -> std::string {
    std::unique_ptr<FM> M;
    if (I % 2) {
      M = vfe::FeatureModelXmlParser(Xml[I / 2 % 6]).buildFeatureModel();
    } else {
      vfe::FeatureModelSxfmParser P(Sxfm[I / 2 % 6]);
      if (!P.verifyFeatureModel()) {
        return "invalid";
      }
      M = P.buildFeatureModel();
    }
    return M ? canon(snap(*M)) : "refused";
  };
  std::vector<std::string> Want;
  for (size_t I = 0; I < 12; ++I) {
    Want.push_back(Load(I));
  }
  std::atomic<int> Other{-1};
  together(6, [&](int T) {
    for (size_t I = 0; I < 60; ++I) {
      if (Load(I + T) != Want[(I + T) % 12]) {
        Other = static_cast<int>((I + T) % 12);
      }
    }
  });
  C.check(Other < 0, "documents", "another model next to other threads, document " + std::to_string(Other));
}

// nothing but refusals: what is printed about them goes through common streams
void refusals(Ctx &C) {
  std::atomic<int> Taken{0};
  together(6, [&](int T) {
    for (int I = 0; I < 30; ++I) {
      if (vfe::Configuration::createConfigurationFromString(I % 3 ? "{\"a\": " : I % 2 ? "[1]" : "{\"a\": 1}")) {
        Taken = 1;
      }
      if (vfe::FeatureModelXmlParser(T % 2 ? "<vm" : "<vm/>").buildFeatureModel()) {
        Taken = 2;
      }
      if (vfe::ConstraintParser(I % 2 ? "a & (b" : "!").buildConstraint()) {
        Taken = 3;
      }
      if (vfe::StepFunctionParser("x +").buildStepFunction()) {
        Taken = 4;
      }
    }
  });
  C.check(Taken == 0, "refusals", "broken text taken: " + std::to_string(Taken));
}

void run(Ctx &C) {
  if (C.Case % 3 == 2) {
    shared(C);
  } else {
    separate(C);
  }
}
} // namespace

int main(int Argc, char **Argv) {
  // libxml2 asks programs with threads for this
  xmlInitParser();
  std::vector<Part> Parts;
  collector() = &Parts;
#define CALL(N)                                                                                                        \
  {                                                                                                                    \
    auto Before = Parts.size();                                                                                        \
    main_##N(0, nullptr);                                                                                              \
    for (auto I = Before; I < Parts.size(); ++I) {                                                                     \
      Works.push_back({#N, Parts[I].Fn});                                                                              \
    }                                                                                                                  \
  }
  PARTS(CALL)
  collector() = nullptr;
  return harnessMain(Argc, Argv, run, {{"documents", documents}, {"refusals", refusals}});
}
