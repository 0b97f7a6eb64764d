// Helpers around the solver.
#ifndef VERIF_SOLVE_H
#define VERIF_SOLVE_H
#include "model.h"
#include "vara/Configuration/Configuration.h"
#include "vara/Solver/ConfigurationFactory.h"
#include "vara/Solver/SolverFactory.h"
namespace vf {
using CF = vara::solver::ConfigurationFactory;

// the same text as envText()
inline std::string configText(vfe::Configuration &Cf) {
  std::map<std::string, std::string> V;
  size_t N = 0;
  for (auto &X : Cf) {
    ++N;
    V[X.getKey().str()] = X.getValue()->asString();
  }
  std::string S;
  for (auto &[K, X] : V) {
    S += K + "=" + X + " ";
  }
  return N == V.size() ? S : S + "<duplicate option>";
}

// configuration -> assignment; nullopt when some feature is missing or extra
inline std::optional<Env> configEnv(const Model &M, vfe::Configuration &Cf) {
  Env En;
  for (auto &X : Cf) {
    auto *O = X.getValue().get();
    auto It = M.F.find(X.getKey().str());
    if (It == M.F.end() || O->name() != X.getKey()) {
      return std::nullopt;
    }
    if (It->second.Kind == 'n') {
      auto V = O->intValue();
      if (!V) {
        return std::nullopt;
      }
      auto D = domain(It->second);
      if (std::find(D.begin(), D.end(), *V) == D.end()) {
        return std::nullopt;
      }
      En[It->first] = *V;
    } else {
      auto V = O->boolValue();
      if (!V) {
        return std::nullopt;
      }
      En[It->first] = *V;
    }
  }
  if (En.size() != M.F.size()) {
    return std::nullopt;
  }
  return En;
}

// a small model the solver and the brute-force enumeration agree on the meaning of
inline GenOpt solvable() {
  GenOpt G;
  G.MinF = 0;
  G.MaxF = 6;
  G.NumLeaf = true;
  G.IntSteps = true;
  G.OptInGroup = false;
  G.Locs = false;
  G.Cons = 4;
  G.WeirdText = false;
  return G;
}
} // namespace vf
#endif
