// C19: the written sample set lists every configuration's flags exactly.
#include "solve.h"
#include "vara/Sampling/SampleSetWriter.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/YAMLTraits.h"
#include <fstream>
#include <unistd.h>
LLVM_YAML_IS_STRING_MAP(std::string)
using namespace vf;
using vara::sampling::SampleSetWriter;

namespace {
using Confs = std::vector<std::unique_ptr<vfe::Configuration>>;
using Flags = std::vector<std::string>;

std::string showFlags(const Flags &F) {
  std::string S;
  for (auto &X : F) {
    S += "<" + X + "> ";
  }
  return S;
}
std::optional<Flags> list(const std::string &T) {
  auto V = llvm::json::parse(T);
  if (!V) {
    llvm::consumeError(V.takeError());
    return std::nullopt;
  }
  auto *A = V->getAsArray();
  if (!A) {
    return std::nullopt;
  }
  Flags F;
  for (auto &X : *A) {
    auto S = X.getAsString();
    if (!S) {
      return std::nullopt;
    }
    F.push_back(S->str());
  }
  return F;
}
std::optional<std::map<std::string, std::string>> yaml(const std::string &T) {
  std::map<std::string, std::string> M;
  llvm::yaml::Input In(T, nullptr, [](const llvm::SMDiagnostic &, void *) {});
  In >> M;
  if (In.error()) {
    return std::nullopt;
  }
  if (In.nextDocument()) {
    return std::nullopt;
  }
  return M;
}
std::string judge(Ctx &C, const FM &L, Confs &Cs, const std::vector<Flags> &Want) {
  auto T = SampleSetWriter::writeConfigurations(L, Cs);
  C.note("documents");
  C.note("configurations", Cs.size());
  auto T2 = SampleSetWriter::writeConfigurations(L, Cs);
  C.check(T == T2, "repeat", "writing twice differs:\n" + T + "\n" + T2);
  auto M = yaml(T);
  if (!C.check(M.has_value(), "yaml", "not a YAML map of texts:\n" + T)) {
    return T;
  }
  C.eq(M->size(), Want.size(), "count", "entries of\n" + T);
  // the map's keys, as they stand in the text
  size_t Rows = 0;
  for (auto &[K, V] : *M) {
    (void)V;
    for (size_t P = T.find("\n" + K + ":"), Q = T.find("\n'" + K + "':"); P != std::string::npos || Q != std::string::npos;) {
      ++Rows;
      auto X = P != std::string::npos ? P : Q;
      P = T.find("\n" + K + ":", X + 1);
      Q = T.find("\n'" + K + "':", X + 1);
    }
  }
  C.check(Rows == M->size(), "count", "entries doubled:\n" + T);
  for (size_t I = 0; I < Want.size(); ++I) {
    auto It = M->find(std::to_string(I));
    if (!C.check(It != M->end(), "index", "no entry " + std::to_string(I) + " in\n" + T)) {
      continue;
    }
    auto F = list(It->second);
    if (!C.check(F.has_value(), "list", "entry " + std::to_string(I) + " is not a list of texts: " + It->second)) {
      continue;
    }
    C.note("flags", F->size());
    C.check(*F == Want[I], "flags", "configuration " + std::to_string(I) + ":\n got  " + showFlags(*F) + "\n want " +
                                        showFlags(Want[I]));
  }
  return T;
}
std::string flagText(Rng &R) {
  static const std::vector<std::string> P = {
      "-", "--", "a", "B", "x", "=", " ", "\"", "\\", "'", ", ", "[", "]", "{", "}", ":", "#", "\n", "\t", "é", "界", "\xf0\x9f\x98\x80",
      "\\n", "\", \"", "%", "@", "`", "&", "*", "!", "|", ">", "0", "7", "true", "null", "~", "\x01", "\xc2\x85"};
  std::string S;
  for (uint64_t N = R.below(6); N; --N) {
    S += R.pick(P);
  }
  return S;
}
void outputs(Rng &R, Model &M) {
  for (auto &[K, X] : M.F) {
    if (X.Kind == 'r' || X.Kind == 'u') {
      X.Out = ""; // only binary and numeric features have one
      continue;
    }
    switch (R.below(8)) {
    case 0: X.Out = ""; break;
    case 1: X.Out = flagText(R); break;
    case 2: X.Out = "--" + K + "="; break;
    case 3: X.Out = K; break;
    case 4: X.Out = "--same"; break;
    case 5: X.Out = " -x "; break;
    default: X.Out = "-" + K;
    }
    if (!R.chance(75)) {
      X.Out = R.chance(50) ? "" : "--" + K;
    }
  }
}
struct One {
  std::map<std::string, std::string> V;
};
// what the library keeps of a value
std::string kept(const std::string &T) {
  vfe::ConfigurationOption O("x", T);
  return O.asString();
}
void fill(Rng &R, const Model &M, One &O) {
  for (auto &[K, X] : M.F) {
    if (R.chance(12)) {
      continue; // not mentioned
    }
    if (X.Kind == 'n') {
      switch (R.below(6)) {
      case 0: O.V[K] = "0"; break;
      case 1: O.V[K] = std::to_string(static_cast<int64_t>(R.next())); break;
      case 2: O.V[K] = "007"; break;
      case 3: O.V[K] = R.chance(50) ? "a\"b" : "1.5"; break;
      case 4: O.V[K] = "true"; break;
      default: O.V[K] = std::to_string(R.range(-20, 20));
      }
    } else {
      static const std::vector<std::string> On = {"true", "true", "true", "TRUE", "True"};
      static const std::vector<std::string> Off = {"false", "false", "False", "FALSE"};
      O.V[K] = R.chance(55) ? R.pick(On) : R.pick(Off);
    }
  }
  if (R.chance(20)) {
    O.V["not_there"] = R.chance(50) ? "true" : "5";
  }
  if (R.chance(10)) {
    for (auto &[K, X] : M.F) {
      O.V.erase(K);
    }
  }
}
std::unique_ptr<vfe::Configuration> make(Rng &R, const One &O) {
  auto Cf = std::make_unique<vfe::Configuration>();
  std::vector<std::pair<std::string, std::string>> Ps(O.V.begin(), O.V.end());
  R.shuffle(Ps);
  for (auto &[K, V] : Ps) {
    if (R.chance(15)) {
      Cf->setConfigurationOption(K, V == "true" ? "false" : "true"); // overwritten
    }
    if (R.chance(50)) {
      Cf->setConfigurationOption(K, V);
    } else {
      Cf->addConfigurationOption(std::make_unique<vfe::ConfigurationOption>(K, V));
    }
  }
  return Cf;
}
Flags want(const Model &M, const std::map<std::string, std::string> &V) {
  Flags F;
  for (auto &N : M.dfs()) {
    auto &X = M.F.at(N);
    auto It = V.find(N);
    if (It == V.end() || X.Out.empty()) {
      continue;
    }
    auto T = kept(It->second);
    if (T == "false") {
      continue;
    }
    F.push_back(X.Kind == 'n' ? X.Out + T : X.Out);
  }
  return F;
}
GenOpt plain(Rng &R) {
  GenOpt G;
  G.MaxF = R.chance(20) ? 25 : 9;
  G.Cons = R.chance(50) ? 0 : 3;
  G.Locs = false;
  return G;
}
std::string randomCase(Ctx &C, std::vector<Flags> &Ws) {
  auto &R = C.R;
  auto M = genModel(R, plain(R));
  if (R.chance(30)) {
    for (auto &[K, X] : M.F) {
      if (K != M.Root && X.Kind == 'b' && R.chance(10)) {
        X.Kind = 'u';
      }
    }
  }
  outputs(R, M);
  auto L = build(R, M);
  if (!C.check(L != nullptr, "build", "model not built\n" + canon(M))) {
    return "";
  }
  C.say(canon(M));
  size_t N = R.chance(10) ? 0 : R.chance(15) ? R.range(10, 120) : R.range(1, 6);
  Confs Cs;
  std::string D = canon(M);
  std::vector<One> Os;
  for (size_t I = 0; I < N; ++I) {
    One O;
    if (I && R.chance(20)) {
      O = R.pick(Os); // twice the same
    } else {
      fill(R, M, O);
    }
    Os.push_back(O);
    Cs.push_back(make(R, O));
    Ws.push_back(want(M, O.V));
    D += "\n#";
    for (auto &[K, V] : O.V) {
      D += K + "=" + V + " ";
    }
  }
  C.say(D);
  C.distinct(D);
  return judge(C, *L, Cs, Ws);
}
void sampled(Ctx &C) { // the whole way: model -> solver -> sample set
  auto &R = C.R;
  auto G = solvable();
  G.MaxF = 5;
  auto M = genModel(R, G);
  outputs(R, M);
  auto All = enumerate(M, 4000);
  if (!All || All->empty() || All->size() > 60) {
    C.note("skipped_large");
    return;
  }
  auto L = build(R, M);
  C.say(canon(M));
  auto Res = CF::getAllConfigs(*L);
  if (!C.check(static_cast<bool>(Res), "sample", "no configurations")) {
    return;
  }
  auto Cs = Res.extractValue();
  std::vector<Flags> Ws;
  for (auto &Cf : Cs) {
    auto En = configEnv(M, *Cf);
    if (!C.check(En.has_value(), "sample", "not an assignment: " + configText(*Cf))) {
      return;
    }
    std::map<std::string, std::string> V;
    for (auto &[K, X] : *En) {
      V[K] = M.F.at(K).Kind == 'n' ? std::to_string(static_cast<int64_t>(X)) : X ? "true" : "false";
    }
    Ws.push_back(want(M, V));
  }
  C.note("sampled", Cs.size());
  C.distinct("s" + canon(M));
  judge(C, *L, Cs, Ws);
}
void run(Ctx &C) {
  if (C.R.chance(4)) {
    sampled(C);
    return;
  }
  std::vector<Flags> Ws;
  auto T = randomCase(C, Ws);
  C.sample(T);
}

// the same documents read by another YAML library
void pyyaml(Ctx &C) {
  char Dir[] = "/tmp/c19XXXXXX";
  if (!mkdtemp(Dir)) {
    C.fail("pyyaml", "no scratch directory");
    return;
  }
  std::string D = Dir;
  llvm::json::Array Docs;
  for (int I = 0; I < 400; ++I) {
    std::vector<Flags> Ws;
    auto T = randomCase(C, Ws);
    llvm::json::Array A;
    for (auto &W : Ws) {
      llvm::json::Array F;
      for (auto &X : W) {
        F.push_back(X);
      }
      A.push_back(std::move(F));
    }
    Docs.push_back(llvm::json::Object{{"text", T}, {"want", std::move(A)}});
  }
  {
    std::string S;
    llvm::raw_string_ostream O(S);
    O << llvm::json::Value(std::move(Docs));
    std::ofstream(D + "/docs.json") << O.str();
    std::ofstream(D + "/read.py") << R"(
import json, sys, yaml
d = sys.argv[1]
out = []
try:
    from yaml import CSafeLoader as Loader
except ImportError:
    from yaml import SafeLoader as Loader
for n, e in enumerate(json.load(open(d + "/docs.json"))):
    try:
        m = yaml.load(e["text"], Loader=Loader) or {}
    except yaml.YAMLError as x:
        out.append("document %d: %s\n%s" % (n, x, e["text"])); continue
    if {str(k) for k in m} != {str(i) for i in range(len(e["want"]))} or len(m) != len(e["want"]):
        out.append("document %d: entries %r" % (n, list(m))); continue
    for k, v in m.items():
        try:
            got = json.loads(v) if isinstance(v, str) else v
        except ValueError as x:
            out.append("document %d entry %s: %s in %r" % (n, k, x, v)); continue
        if got != e["want"][int(k)]:
            out.append("document %d entry %s: got %r want %r" % (n, k, got, e["want"][int(k)]))
open(d + "/out", "w").write("\n".join(out))
)";
  }
  std::string Cmd = "python3 " + D + "/read.py " + D + " 2> " + D + "/err";
  int Rc = std::system(Cmd.c_str());
  std::ifstream In(D + "/out");
  std::stringstream S;
  S << In.rdbuf();
  if (Rc != 0) {
    std::ifstream Er(D + "/err");
    std::stringstream X;
    X << Er.rdbuf();
    if (X.str().find("No module named") != std::string::npos) {
      C.note("pyyaml_missing");
    } else {
      C.fail("pyyaml", "reader failed: " + X.str());
    }
  } else {
    C.note("pyyaml_documents", 400);
    C.check(S.str().empty(), "pyyaml", S.str());
  }
  for (auto *F : {"/docs.json", "/read.py", "/err", "/out"}) {
    unlink((D + F).c_str());
  }
  rmdir(Dir);
}
} // namespace
int main(int Argc, char **Argv) { return harnessMain(Argc, Argv, run, {{"pyyaml", pyyaml}}); }
