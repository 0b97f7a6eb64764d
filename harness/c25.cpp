// C25: the model builder is independent of call order and refuses bad descriptions.
#include "model.h"
using namespace vf;

namespace {
using B = vfe::FeatureModelBuilder;
struct Call {
  std::string Text;
  std::function<void(B &)> Do;
  std::string Parent, Child; // of an edge
};

struct Desc {
  std::vector<Call> Calls;
  std::map<std::string, std::string> Told;
  void feature(const MFeat &X) {
    auto P = std::make_shared<MFeat>(X);
    Calls.push_back({"makeFeature " + featText(X, {}), [P](B &FB) {
                       if (P->Kind == 'n') {
                         FB.makeFeature<vfe::NumericFeature>(P->Name, mkValues(*P), P->Opt, mkLocs(*P), P->Out, mkStep(*P));
                       } else if (P->Kind == 'u') {
                         FB.makeFeature<vfe::Feature>(P->Name);
                       } else {
                         FB.makeFeature<vfe::BinaryFeature>(P->Name, P->Opt, mkLocs(*P), P->Out);
                       }
                     }});
  }
  void edge(const std::string &P, const std::string &C) {
    Told[C] = P;
    Calls.push_back({"addEdge " + P + " -> " + C, [P, C](B &FB) { FB.addEdge(P, C); }, P, C});
  }
  void root(const std::string &N) {
    Calls.push_back({"makeRoot " + N, [N](B &FB) { FB.makeRoot(N); }});
  }
  void group(bool Alt, const std::string &P) {
    Calls.push_back({"emplaceRelationship " + P, [Alt, P](B &FB) {
                       FB.emplaceRelationship(Alt ? RKind::RK_ALTERNATIVE : RKind::RK_OR, P);
                     }});
  }
  void cons(const MCons &X) {
    Calls.push_back({"addConstraint " + consText(X, {}), [X](B &FB) {
                       if (X.Kind == 0) {
                         FB.addConstraint(mkB(X));
                       } else if (X.Kind == 1) {
                         FB.addConstraint(mkN(X));
                       } else {
                         FB.addConstraint(mkM(X));
                       }
                     }});
  }
};

std::unique_ptr<FM> play(Ctx &C, Desc &D, const std::set<std::string> &Ask) {
  B FB;
  std::map<std::string, std::string> Told;
  for (auto &X : D.Calls) {
    C.say(X.Text);
    X.Do(FB);
    if (!X.Child.empty()) {
      Told[X.Child] = X.Parent;
    }
  }
  for (auto &N : Ask) {
    auto P = FB.getParentName(N);
    auto It = Told.find(N);
    C.check(P.has_value() == (It != Told.end()) && (!P || *P == It->second), "parent-name",
            "getParentName(" + N + ") is " + P.value_or("<none>"));
    C.note("parent_queries");
  }
  C.note("builds");
  return FB.buildFeatureModel();
}

void run(Ctx &C) {
  auto &R = C.R;
  GenOpt G;
  G.MinF = 0;
  G.MaxF = R.chance(10) ? 25 : 9;
  G.Groups = 1;
  G.Twins = 15;
  G.TwinSiblings = true;
  auto M = genModel(R, G);
  if (R.chance(25)) {
    weirdNames(R, M, true);
  }
  if (R.chance(15) && M.Root != "root" && !M.F.count("root") && M.F.size() > 1) {
    // a plain feature called like the default root
    MFeat X;
    X.Name = "root";
    X.Parent = M.Root;
    M.F["root"] = X;
    for (auto &Gr : M.G) {
      if (Gr.Parent == M.Root) {
        M.F["root"].Group = static_cast<int>(&Gr - M.G.data());
      }
    }
  }
  if (R.chance(15)) {
    for (auto &[K, X] : M.F) {
      if (X.Kind == 'b' && R.chance(30)) {
        MFeat Y;
        Y.Name = K;
        Y.Kind = 'u';
        Y.Parent = X.Parent;
        Y.Group = X.Group;
        X = Y;
      }
    }
  }
  Desc D;
  if (M.Root != "root" || R.chance(50)) {
    D.root(M.Root);
    if (R.chance(10)) {
      D.root(M.Root);
    }
  }
  for (auto &[K, X] : M.F) {
    if (X.Kind == 'r') {
      continue;
    }
    D.feature(X);
    if (X.Parent != M.Root || R.chance(60)) {
      D.edge(X.Parent, K);
      if (R.chance(10)) {
        D.edge(X.Parent, K);
      }
    }
  }
  for (auto &X : M.G) {
    D.group(X.Alt, X.Parent);
  }
  for (auto &X : M.allCons()) {
    D.cons(X);
  }
  D.Calls.push_back({"setVmName", [&M](B &FB) { FB.setVmName(M.Name); }});
  D.Calls.push_back({"setPath", [&M](B &FB) { FB.setPath(fs::path(M.Path)); }});
  D.Calls.push_back({"setCommit", [&M](B &FB) { FB.setCommit(M.Commit); }});
  std::set<std::string> Ask{"Nobody"};
  for (auto &[K, X] : M.F) {
    Ask.insert(K);
  }
  std::string Bad;
  auto Names = M.names();
  if (R.chance(40)) {
    switch (R.below(8)) {
    case 0: {
      auto N = R.pick(Names);
      MFeat X;
      X.Name = N;
      X.Kind = R.chance(50) ? 'b' : 'n';
      D.feature(X);
      Bad = "feature twice: " + N;
      break;
    }
    case 1:
      D.edge("Missing", R.pick(Names));
      Bad = "edge from a missing feature";
      break;
    case 2:
      D.edge(R.pick(Names), "Missing");
      Bad = "edge to a missing feature";
      break;
    case 3: {
      auto N = R.pick(Names);
      D.edge(N, N);
      Bad = "feature below itself";
      break;
    }
    case 4: {
      // the only edges of these features
      if (Names.size() < 4) {
        break;
      }
      std::vector<std::string> Cyc;
      for (auto &N : Names) {
        if (N != M.Root && !D.Told.count(N) && Cyc.size() < 3) {
          Cyc.push_back(N);
        }
      }
      if (Cyc.size() < 2) {
        break;
      }
      for (size_t I = 0; I < Cyc.size(); ++I) {
        D.edge(Cyc[I], Cyc[(I + 1) % Cyc.size()]);
      }
      Bad = "cycle";
      break;
    }
    case 5:
      D.edge(R.pick(Names), M.Root);
      Bad = "root below another feature";
      break;
    case 6: {
      MCons X;
      X.Kind = static_cast<int>(R.below(3));
      X.X = X.Kind == 0 ? bin(Op::Imp, feat(R.pick(Names)), feat("Missing")) : bin(Op::Le, feat("Missing"), num(3));
      D.cons(X);
      Bad = "constraint on a missing feature";
      break;
    }
    default:
      D.group(true, "Missing");
      Bad = "group below a missing feature";
    }
  }
  std::string First;
  int Orders = 1 + static_cast<int>(R.below(3));
  for (int I = 0; I < Orders; ++I) {
    R.shuffle(D.Calls);
    C.say("--- order " + std::to_string(I) + (Bad.empty() ? "" : "   (" + Bad + ")"));
    auto Lib = play(C, D, Ask);
    if (!Bad.empty()) {
      C.note("bad_descriptions");
      C.check(Lib == nullptr, "accepted", "model built although: " + Bad);
      continue;
    }
    if (!C.check(Lib != nullptr, "refused", "model not built")) {
      continue;
    }
    sameModel(C, sound(C, *Lib, "built model"), M, "content", "built model");
  }
  C.distinct(canon(M) + Bad);
  C.sample(canon(M, {true, false, false}));
}

// all orders of a small description
void probeOrders(Ctx &C) {
  Model M;
  M.Name = "m";
  M.Path = "p";
  M.Root = "top";
  auto Add = [&](const char *N, const char *P, char K = 'b') {
    MFeat X;
    X.Name = N;
    X.Parent = P;
    X.Kind = K;
    M.F[N] = X;
  };
  Add("top", "", 'r');
  Add("root", "top");
  Add("A", "root");
  Add("Z", "A");
  M.F["A"].Group = 0;
  M.G.push_back({true, "root"});
  Desc D;
  D.root("top");
  D.feature(M.F["root"]);
  D.feature(M.F["A"]);
  D.feature(M.F["Z"]);
  D.edge("root", "A");
  D.edge("A", "Z");
  D.group(true, "root");
  D.Calls.push_back({"meta", [](B &FB) { FB.setVmName("m"); FB.setPath("p"); }});
  std::vector<size_t> Ix(D.Calls.size());
  for (size_t I = 0; I < Ix.size(); ++I) {
    Ix[I] = I;
  }
  int K = 0;
  do {
    if (++K % 5) {
      continue; // every fifth of the 40320 orders
    }
    B FB;
    for (auto I : Ix) {
      D.Calls[I].Do(FB);
    }
    auto L = FB.buildFeatureModel();
    if (!C.check(L != nullptr, "refused", "not built")) {
      return;
    }
    if (!sameModel(C, snap(*L), M, "content", "order of calls matters")) {
      return;
    }
  } while (std::next_permutation(Ix.begin(), Ix.end()));
}
void probeEmpty(Ctx &C) {
  auto L = B().buildFeatureModel();
  Model M;
  MFeat X;
  X.Name = "root";
  X.Kind = 'r';
  M.F["root"] = X;
  if (C.check(L != nullptr, "refused", "nothing described")) {
    sameModel(C, sound(C, *L, "empty"), M, "content", "nothing described", {true, false, true, false, true, false});
  }
}
} // namespace
int main(int argc, char **argv) {
  return harnessMain(argc, argv, run, {{"orders", probeOrders}, {"nothing", probeEmpty}});
}
