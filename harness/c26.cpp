// C26: each feature knows exactly the constraints that mention it.
#include "ops.h"
#include "sxfm.h"
#include "vara/Feature/FeatureModelParser.h"
#include "vara/Feature/FeatureModelWriter.h"
using namespace vf;

namespace {
// what the reference model says each feature must list
struct Lists {
  std::map<std::string, std::multiset<std::string>> All, Imp, Exc;
  explicit Lists(const Model &M) {
    for (auto *L : {&M.B, &M.N, &M.M}) {
      for (auto &X : *L) {
        std::set<std::string> Fs;
        feats(X.X, Fs);
        auto T = sexp(X.X);
        for (auto &F : Fs) {
          All[F].insert(T);
          if (X.X->O == Op::Imp) {
            Imp[F].insert(T);
          }
          if (X.X->O == Op::Excl) {
            Exc[F].insert(T);
          }
        }
      }
    }
  }
};
std::string show(const std::multiset<std::string> &S) {
  std::string T;
  for (auto &X : S) {
    T += "\n    " + X;
  }
  return T.empty() ? " nothing" : T;
}
// every list of every feature against the reference
void lists(Ctx &C, FM &L, const Model &Want, const std::string &When) {
  auto Got = sound(C, L, When); // recount over the model's own constraints
  sameModel(C, Got, Want, "model", When);
  if (C.Failed) {
    return;
  }
  Lists W(Want);
  for (auto &[K, X] : Want.F) {
    auto *F = L.getFeature(K);
    std::multiset<std::string> A, I, E;
    std::set<vfe::Constraint *> Roots;
    std::set<void *> Entries;
    for (auto *P : F->constraints()) {
      C.check(Entries.insert(P).second, "twice", When + ": " + K + " has an entry twice");
      auto *Pf = llvm::dyn_cast<vfe::PrimaryFeatureConstraint>(static_cast<vfe::Constraint *>(P));
      C.check(Pf && Pf->getFeature() == F, "entry", When + ": an entry of " + K + " is no mention of it");
      if (Roots.insert(P->getRoot()).second) {
        A.insert(sexp(fromLib(P->getRoot())));
      }
      C.note("mentions");
    }
    for (auto *P : F->implications()) {
      I.insert(sexp(fromLib(P)));
      C.note("implications");
    }
    for (auto *P : F->excludes()) {
      E.insert(sexp(fromLib(P)));
      C.note("exclusions");
    }
    C.check(A == W.All[K], "constraints", When + ": " + K + " lists" + show(A) + "\n  but occurs in" + show(W.All[K]));
    C.check(I == W.Imp[K], "implications", When + ": " + K + " lists implications" + show(I) + "\n  but has" + show(W.Imp[K]));
    C.check(E == W.Exc[K], "exclusions", When + ": " + K + " lists exclusions" + show(E) + "\n  but has" + show(W.Exc[K]));
    C.note("features_checked");
  }
}
Model start(Ctx &C, std::unique_ptr<FM> &L) {
  auto &R = C.R;
  switch (R.below(6)) {
  case 0: {
    auto D = genSxfm(R);
    L = vfe::FeatureModelSxfmParser(D.Text).buildFeatureModel();
    C.note("from_sxfm");
    if (L) {
      D.M.Path = L->getPath().string();
    }
    C.say(D.Text);
    return D.M;
  }
  case 1:
  case 2: {
    GenOpt O;
    O.MinF = 0;
    O.MaxF = 7;
    O.Groups = 0;
    O.Textual = true;
    O.XmlRoot = true;
    O.FullLocs = true;
    O.Cons = 8;
    auto M = genModel(R, O);
    if (R.chance(30)) {
      addExclusions(R, M, 50, 30);
    }
    auto T = XmlOut(R, M, {R.chance(50)}).text();
    C.say(T);
    L = vfe::FeatureModelXmlParser(T).buildFeatureModel();
    C.note("from_xml");
    return xmlMeaning(M);
  }
  default: {
    GenOpt O;
    O.MaxF = 8;
    O.Cons = R.chance(30) ? 14 : 6;
    auto M = genModel(R, O);
    if (R.chance(25)) {
      weirdNames(R, M, true);
    }
    for (uint64_t N = R.below(4); N; --N) { // repeated and reflexive ones
      MCons X;
      auto Ns = M.names();
      X.X = bin(R.chance(50) ? Op::Imp : Op::Excl, feat(R.pick(Ns)), feat(R.pick(Ns)));
      M.B.push_back(X);
      if (R.chance(40)) {
        M.B.push_back(X);
      }
    }
    uniqueLocs(M);
    L = build(R, M);
    C.note("built");
    return M;
  }
  }
}
void run(Ctx &C) {
  auto &R = C.R;
  std::unique_ptr<FM> L;
  auto Cur = start(C, L);
  if (!C.check(L != nullptr, "setup", "no start")) {
    return;
  }
  {
    Canon K;
    auto S = snap(*L);
    S.Path = Cur.Path;
    if (!sameModel(C, S, Cur, "setup", "start", K)) {
      return;
    }
    Cur = snap(*L);
  }
  uniqueLocs(Cur);
  bool Dup = canon(Cur) != canon(snap(*L)); // equal locations: no location edits
  if (Dup) {
    C.note("skipped_equal_locations");
    return;
  }
  std::string Hist = canon(Cur);
  C.say("model:\n" + canon(Cur));
  lists(C, *L, Cur, "at the start");
  for (uint64_t Step = 1 + R.below(6); Step && !C.Failed; --Step) {
    Hist += "|";
    switch (R.below(10)) {
    case 0: { // clone; the original goes or stays
      auto Cl = L->clone();
      C.say("clone");
      if (R.chance(50)) {
        L.reset();
        lists(C, *Cl, Cur, "clone, original gone");
      } else {
        lists(C, *L, Cur, "original, cloned");
        lists(C, *Cl, Cur, "clone");
        if (R.chance(50)) { // shrinking one does not reach the other
          auto Ns = Cur.names();
          auto V = R.pick(Ns);
          if (V != Cur.Root) {
            FV N = V;
            vfe::removeFeature(*L, N, true);
            lists(C, *Cl, Cur, "clone after shrinking the original");
          }
        }
      }
      L = std::move(Cl);
      C.note("clones");
      break;
    }
    case 1:
    case 2: { // copy transaction
      Handles H(*L, Cur);
      OpGen G(R, Cur, false, false);
      std::unique_ptr<FM> New;
      bool Abort = R.chance(20);
      bool Skipped = false;
      {
        auto T = CopyTx::openTransaction(*L);
        for (uint64_t N = 1 + R.below(5); N; --N) {
          EditOp O;
          auto Bm = G.M;
          auto Bg = G.Gone;
          auto Bp = G.GroupMap;
          G.next(O);
          if (O.PtrA || O.PtrB || O.Group >= 0) { // pointers would be the original's
            G.M = Bm;
            G.Gone = Bg;
            G.GroupMap = Bp;
            continue;
          }
          C.say("copy: " + O.text());
          Hist += O.text();
          stage(T, O, H);
        }
        lists(C, *L, Cur, "original during a copy transaction");
        if (Abort) {
          T.abort();
        } else {
          if (auto Res = T.commit()) {
            New = Res.extractValue();
          }
        }
      }
      lists(C, *L, Cur, "original after a copy transaction");
      if (!Abort && C.check(New != nullptr, "setup", "copy transaction fails")) {
        if (R.chance(50)) {
          L.reset();
        }
        Cur = G.M;
        lists(C, *New, Cur, "copied model");
        L = std::move(New);
      }
      C.note("copy_transactions");
      break;
    }
    case 3: { // remove with the free functions
      auto Ns = Cur.names();
      auto V = R.pick(Ns);
      if (V == Cur.Root) {
        break;
      }
      C.say("remove " + V);
      Hist += "remove " + V;
      FV N = R.chance(50) ? FV(V) : FV(L->getFeature(V));
      vfe::removeFeature(*L, N, true);
      eraseSubtree(Cur, V);
      lists(C, *L, Cur, "after removing " + V);
      C.note("removals");
      break;
    }
    case 4: { // merge with itself or another model
      GenOpt O;
      O.MaxF = 4;
      O.Groups = 0;
      O.Meta = false;
      auto M2 = genModel(R, O);
      std::unique_ptr<FM> L2;
      if (R.chance(40)) {
        L2 = L->clone();
      } else {
        // same root, fresh names
        Model Z;
        Z.Name = "other";
        std::map<std::string, std::string> Ren;
        for (auto &[K, X] : M2.F) {
          Ren[K] = K == M2.Root ? Cur.Root : "merged_" + K + std::to_string(Step);
        }
        for (auto [K, X] : M2.F) {
          X.Name = Ren[K];
          X.Parent = X.Parent.empty() ? "" : Ren[X.Parent];
          X.Group = -1;
          Z.F[X.Name] = X;
        }
        Z.Root = Cur.Root;
        if (R.chance(50)) {
          MCons K;
          auto Ns = Z.names();
          K.X = bin(Op::Imp, feat(R.pick(Ns)), feat(R.pick(Ns)));
          Z.B.push_back(K);
        }
        uniqueLocs(Z);
        L2 = build(R, Z);
      }
      C.say("merge");
      auto Mg = vfe::mergeFeatureModels(*L, *L2, R.chance(50));
      lists(C, *L, Cur, "first input of a merge");
      if (Mg) {
        if (R.chance(50)) {
          L.reset();
          L2.reset();
        }
        Cur = snap(*Mg);
        lists(C, *Mg, Cur, "merged model");
        L = std::move(Mg);
        C.note("merges");
      }
      break;
    }
    default: {
      Handles H(*L, Cur);
      bool Bad = R.chance(20);
      OpGen G(R, Cur, Bad, true);
      bool Abort = R.chance(10);
      std::string Err;
      {
        auto T = ModTx::openTransaction(*L);
        for (uint64_t N = 1 + R.below(8); N && Err.empty(); --N) {
          EditOp O;
          Err = G.next(O);
          C.say(O.text() + (Err.empty() ? "" : "   -> " + Err));
          Hist += O.text();
          stage(T, O, H);
        }
        lists(C, *L, Cur, "before commit");
        if (Abort) {
          T.abort();
        } else {
          T.commit();
        }
      }
      if (!Abort && Err.empty()) {
        Cur = G.M;
      } else if (!Abort) {
        Cur = snap(*L);
      }
      lists(C, *L, Cur, Abort ? "after abort" : "after commit");
      C.note("transactions");
    }
    }
  }
  C.distinct(Hist);
  C.sample(Hist);
}
// every shape of mention, then each feature goes in turn
void probeShapes(Ctx &C) {
  std::vector<E> Xs;
  auto A = feat("A"), B = feat("B");
  for (auto &X : {A, un(Op::Not, A), bin(Op::Imp, A, B), bin(Op::Imp, B, A), bin(Op::Excl, A, B), bin(Op::Excl, A, A), bin(Op::Imp, A, A),
                  bin(Op::Or, bin(Op::Imp, A, B), B), un(Op::Not, bin(Op::Excl, A, B)), bin(Op::Imp, bin(Op::And, A, B), bin(Op::Or, B, A)),
                  bin(Op::Eqv, A, bin(Op::Imp, A, B)), bin(Op::Eq, feat("N"), num(1)), bin(Op::Imp, A, bin(Op::Eq, feat("N"), num(1))),
                  bin(Op::Excl, bin(Op::Gt, bin(Op::Add, feat("N"), feat("N")), num(2)), un(Op::Not, B)), feat("root"),
                  bin(Op::Imp, feat("root"), A), bin(Op::Excl, feat("root"), B)}) {
    Xs.push_back(X);
  }
  for (auto Gone : {"", "A", "B", "N", "!root", "!same"}) {
    for (int Kind = 0; Kind < 3; ++Kind) {
      Model M;
      auto Add = [&](const char *N, const char *P, char K) {
        MFeat X;
        X.Name = N;
        X.Parent = P;
        X.Kind = K;
        M.F[N] = X;
      };
      Add("root", "", 'r');
      Add("A", "root", 'b');
      Add("B", "root", 'b');
      Add("N", "root", 'n');
      for (auto &X : Xs) {
        MCons K;
        K.X = X;
        K.Kind = Kind;
        (Kind == 0 ? M.B : Kind == 1 ? M.N : M.M).push_back(K);
      }
      auto L = buildTx(C.R, M);
      lists(C, *L, M, "shapes");
      std::string G = Gone;
      if (G.empty()) {
        L = L->clone();
      } else if (G[0] == '!') {
        auto T = ModTx::openTransaction(*L);
        EditOp O;
        O.Kind = EditOp::SetRoot;
        O.A = G == "!same" ? "root" : "top";
        Handles H(*L, M);
        stage(T, O, H);
        bool Ok = static_cast<bool>(T.commit());
        std::vector<int> Map;
        C.check(Ok == applyOp(M, O, Map).empty(), "verdict", "new root");
      } else {
        FV V = G;
        vfe::removeFeature(*L, V, false);
        eraseSubtree(M, G);
      }
      lists(C, *L, M, "shapes, gone: " + G);
    }
  }
}
} // namespace
int main(int argc, char **argv) { return harnessMain(argc, argv, run, {{"shapes", probeShapes}}); }
