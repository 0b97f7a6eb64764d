// C14: traversals visit every feature exactly once in the documented order.
#include "ops.h"
#include "vara/Feature/FeatureModelParser.h"
#include "vara/Feature/OrderedFeatureVector.h"
using namespace vf;

namespace {
std::string low(const std::string &S) {
  std::string T = S;
  for (auto &C : T) {
    C = C >= 'A' && C <= 'Z' ? static_cast<char>(C - 'A' + 'a') : C;
  }
  return T;
}
bool twins(const Model &M) { // siblings whose names differ only in case
  std::set<std::pair<std::string, std::string>> S;
  for (auto &[K, X] : M.F) {
    if (!S.insert({X.Parent, low(K)}).second) {
      return true;
    }
  }
  return false;
}
// a preorder of the model with siblings ascending?
std::string preorder(const Model &M, const std::vector<std::string> &Seq) {
  std::set<std::string> Seen;
  std::vector<std::string> Path;            // open features
  std::map<std::string, std::string> Last;  // last child seen
  std::map<std::string, size_t> Left;
  for (auto &[K, X] : M.F) {
    Left[X.Parent] += K != M.Root;
  }
  for (auto &N : Seq) {
    auto It = M.F.find(N);
    if (It == M.F.end()) {
      return "visits " + N + ", which is not in the model";
    }
    if (!Seen.insert(N).second) {
      return "visits " + N + " twice";
    }
    if (Path.empty()) {
      if (N != M.Root) {
        return "starts at " + N;
      }
      Path.push_back(N);
      continue;
    }
    while (!Path.empty() && Path.back() != It->second.Parent) {
      if (Left[Path.back()]) {
        return "leaves " + Path.back() + " before all its children";
      }
      Path.pop_back();
    }
    if (Path.empty()) {
      return "visits " + N + " apart from its parent";
    }
    auto &P = Path.back();
    if (Last.count(P) && low(Last[P]) > low(N)) {
      return "visits " + Last[P] + " before " + N;
    }
    Last[P] = N;
    --Left[P];
    Path.push_back(N);
  }
  return Seen.size() == M.F.size() ? "" : "visits " + std::to_string(Seen.size()) + " of " + std::to_string(M.F.size());
}
std::string join(const std::vector<std::string> &V) {
  std::string S;
  for (auto &X : V) {
    S += X + " ";
  }
  return S;
}
std::vector<std::string> names(const std::vector<vfe::Feature *> &V) {
  std::vector<std::string> S;
  for (auto *F : V) {
    S.push_back(F ? F->getName().str() : "<null>");
  }
  return S;
}
std::vector<vfe::Feature *> order(Ctx &C, const FM &L, size_t Bound) {
  std::vector<vfe::Feature *> A, B, D;
  for (auto *F : L.features()) {
    A.push_back(F);
    if (A.size() > Bound) {
      break;
    }
  }
  auto It = L.begin();
  for (; It != L.end() && B.size() <= Bound;) {
    auto Cp = It;
    B.push_back(*It);
    C.check(*Cp == *It && Cp == It && *It.operator->() == *It, "iterator", "copies differ");
    auto Old = It++;
    C.check(*Old == B.back(), "iterator", "post-increment yields the wrong element");
    if (It == L.end()) {
      C.check(*It == nullptr, "iterator", "the end has an element");
    }
  }
  C.check(It == L.end(), "iterator", "never ends");
  ++It;
  C.check(It == L.end(), "iterator", "leaves the end");
  for (auto I = L.begin(); I != L.end() && D.size() <= Bound;) {
    D.push_back(*I);
    auto N = ++I;
    C.check(N == I, "iterator", "pre-increment");
  }
  C.check(A == B && A == D, "iterator", "ways of iterating differ:\n" + join(names(A)) + "\n" + join(names(B)) + "\n" + join(names(D)));
  return A;
}
void judge(Ctx &C, const FM &L, const Model &M, const std::string &What) {
  auto V = order(C, L, M.F.size() + 2);
  auto Ns = names(V);
  C.note("traversals");
  C.note("features", Ns.size());
  auto P = preorder(M, Ns);
  C.check(P.empty(), "order", What + ": iteration " + P + "\n" + join(Ns));
  bool Tw = twins(M);
  if (!Tw) {
    C.check(Ns == M.dfs(), "order", What + ": " + join(Ns) + "\nexpected " + join(M.dfs()));
  } else {
    C.note("case_twins");
  }
  std::vector<std::string> U, U2;
  for (auto *F : L.unorderedFeatures()) {
    U.push_back(F->getName().str());
  }
  auto R = L.unorderedFeatures();
  for (auto I = R.begin(); I != R.end();) {
    auto *F = *I;
    auto O = I++;
    C.check(*O == F && O->getName() == F->getName(), "iterator", "unordered post-increment");
    U2.push_back(F->getName().str());
  }
  C.check(U == U2, "iterator", "unordered iterations differ");
  std::sort(U.begin(), U.end());
  C.check(U == M.names(), "unordered", What + ": unordered " + join(U) + "\nmodel " + join(M.names()));
  C.eq(static_cast<size_t>(L.size()), M.F.size(), "size", "size");
  if (C.Failed) {
    return;
  }
  // comparison, equality, hash
  auto Cmp = [&](size_t I, size_t J) {
    auto &A = *V[I], &B = *V[J];
    bool Lt = A < B, Gt = A > B;
    C.check(Gt == (B < A), "less", "> is not < mirrored");
    C.check(!(Lt && Gt), "less", Ns[I] + " both before and after " + Ns[J]);
    // siblings on the way that differ only in case leave it open
    std::vector<std::string> Pa, Pb;
    for (auto X = Ns[I]; !X.empty(); X = M.F.at(X).Parent) {
      Pa.insert(Pa.begin(), X);
    }
    for (auto X = Ns[J]; !X.empty(); X = M.F.at(X).Parent) {
      Pb.insert(Pb.begin(), X);
    }
    size_t K = 0;
    while (K < Pa.size() && K < Pb.size() && Pa[K] == Pb[K]) {
      ++K;
    }
    if (K < Pa.size() && K < Pb.size() && low(Pa[K]) == low(Pb[K])) {
      C.note("comparisons_open");
    } else {
      C.check(Lt == (I < J) && Gt == (J < I), "less", What + ": " + Ns[I] + (Lt ? " < " : " !< ") + Ns[J] + " but visited at " +
                                                        std::to_string(I) + ", " + std::to_string(J));
      C.note("comparisons");
    }
    bool Eq = low(Ns[I]) == low(Ns[J]);
    C.check((A == B) == Eq && (A != B) == !Eq, "equality", Ns[I] + " == " + Ns[J]);
    C.check(!Eq || A.hash() == B.hash(), "hash", "hash of " + Ns[I] + " and " + Ns[J]);
  };
  if (V.size() <= 14) {
    for (size_t I = 0; I < V.size(); ++I) {
      for (size_t J = 0; J < V.size(); ++J) {
        Cmp(I, J);
      }
    }
  } else {
    for (int K = 0; K < 200; ++K) {
      Cmp(C.R.below(V.size()), C.R.below(V.size()));
    }
  }
  // ordered vectors
  if (Tw) {
    return;
  }
  auto &Rn = C.R;
  using OV = vfe::deprecated::OrderedFeatureVector;
  std::map<vfe::Feature *, size_t> At;
  for (size_t I = 0; I < V.size(); ++I) {
    At[V[I]] = I;
  }
  std::vector<vfe::Feature *> Want; // sorted
  auto Ins = [&](vfe::Feature *F) {
    Want.insert(std::upper_bound(Want.begin(), Want.end(), F, [&](auto *A, auto *B) { return At[A] < At[B]; }), F);
  };
  auto Some = [&]() {
    std::vector<vfe::Feature *> S;
    for (uint64_t N = Rn.below(6); N; --N) {
      S.push_back(Rn.pick(V));
    }
    return S;
  };
  std::unique_ptr<OV> O;
  switch (Rn.below(4)) {
  case 0: {
    auto S = Some();
    O = std::make_unique<OV>(S.begin(), S.end());
    for (auto *F : S) {
      Ins(F);
    }
    break;
  }
  case 1: {
    auto *A = Rn.pick(V), *B = Rn.pick(V);
    O = std::make_unique<OV>(std::initializer_list<vfe::Feature *>{A, B});
    Ins(A);
    Ins(B);
    break;
  }
  case 2:
    O = std::make_unique<OV>(L.begin(), L.end());
    Want = V;
    break;
  default: O = std::make_unique<OV>();
  }
  for (uint64_t N = Rn.below(20);; --N) {
    std::vector<vfe::Feature *> Got(O->begin(), O->end());
    const auto &Co = *O;
    C.check(Got == Want && std::vector<vfe::Feature *>(Co.begin(), Co.end()) == Want, "vector",
            What + ": ordered vector " + join(names(Got)) + "\nexpected " + join(names(Want)));
    C.check(O->size() == Want.size() && O->empty() == Want.empty(), "vector", "size of the ordered vector");
    C.note("vector_states");
    if (!N || C.Failed) {
      break;
    }
    switch (Rn.below(6)) {
    case 0: {
      auto *F = Rn.pick(V);
      O->remove(F);
      Want.erase(std::remove(Want.begin(), Want.end(), F), Want.end());
      break;
    }
    case 1: {
      auto S = Some();
      if (Rn.chance(50)) {
        O->insert(S.begin(), S.end());
      } else {
        O->insert(llvm::make_range(S.begin(), S.end()));
      }
      for (auto *F : S) {
        Ins(F);
      }
      break;
    }
    case 2: {
      auto *A = Rn.pick(V), *B = Rn.pick(V);
      O->insert({A, B});
      Ins(A);
      Ins(B);
      break;
    }
    default: {
      auto *F = Rn.pick(V);
      O->insert(F);
      Ins(F);
    }
    }
  }
  // children at any depth of expansion
  for (auto *F : V) {
    std::set<std::string> All, Direct;
    size_t Gs = 0;
    for (auto &[K, X] : M.F) {
      if (X.Parent == F->getName() && K != M.Root) {
        All.insert(K);
        if (X.Group < 0) {
          Direct.insert(K);
        }
      }
    }
    for (auto &G : M.G) {
      Gs += G.Parent == F->getName();
    }
    auto Set = [](auto &&X) {
      std::set<std::string> S;
      for (auto *Y : X) {
        S.insert(Y->getName().str());
      }
      return S;
    };
    C.check(Set(F->getChildren<vfe::Feature>()) == All, "children", "children of " + F->getName().str());
    C.check(Set(F->getChildren<vfe::Feature>(1)) == Direct, "children", "direct children of " + F->getName().str());
    C.check(Set(F->getChildren<vfe::Feature>(2)) == All, "children", "children within two steps of " + F->getName().str());
    C.check(F->getChildren<vfe::Feature>(0).empty(), "children", "children within no step");
    C.eq(static_cast<size_t>(F->getChildren<vfe::Relationship>(1).size()), Gs, "children", "groups below " + F->getName().str());
    C.eq(static_cast<size_t>(F->getChildren<vfe::FeatureTreeNode>(1).size()), Gs + Direct.size(), "children", "nodes below");
  }
}
// names that differ only in case, or in what sorts around letters
void clash(Rng &R, Model &M) {
  static const std::vector<std::string> P = {"a", "A", "ab", "AB", "aB", "Ab", "a_", "A_", "a0", "a-", "A-", "Z", "z", "[", "_", "^", "~", "B",
                                             "b", "aa", "AA", "a b", "\xc3\xa4", "\xc3\x84", "1", "11", "a1", "A1", "@", "`", "{"};
  auto Ps = P;
  R.shuffle(Ps);
  std::map<std::string, std::string> To;
  size_t I = 0;
  for (auto &N : M.names()) {
    if (N != M.Root && I < Ps.size() && !M.F.count(Ps[I])) {
      To[N] = Ps[I++];
    }
  }
  auto Map = [&](const std::string &S) { return To.count(S) ? To[S] : S; };
  std::map<std::string, MFeat> F;
  for (auto [K, X] : M.F) {
    X.Name = Map(K);
    X.Parent = Map(X.Parent);
    F[X.Name] = X;
  }
  M.F = F;
  for (auto &G : M.G) {
    G.Parent = Map(G.Parent);
  }
  M.B.clear();
  M.N.clear();
  M.M.clear();
}
void run(Ctx &C) {
  auto &R = C.R;
  GenOpt O;
  O.MinF = 0;
  O.MaxF = R.chance(10) ? 60 : 12;
  O.Cons = R.chance(50) ? 0 : 2;
  O.Locs = false;
  auto M = genModel(R, O);
  if (R.chance(25)) {
    weirdNames(R, M, true);
  }
  if (R.chance(50)) {
    clash(R, M);
  }
  if (R.chance(60) && twins(M)) { // mostly without
    for (bool Again = true; Again;) {
      Again = false;
      std::set<std::pair<std::string, std::string>> S;
      for (auto &[K, X] : M.F) {
        if (!S.insert({X.Parent, low(K)}).second) {
          eraseSubtree(M, std::string(K));
          Again = true;
          break;
        }
      }
    }
  }
  C.say("model:\n" + canon(M));
  std::vector<std::string> First;
  for (int K = 0; K < 3 && !C.Failed; ++K) {
    auto L = build(R, M);
    if (!C.check(L != nullptr, "setup", "no model")) {
      return;
    }
    judge(C, *L, M, "built");
    if (R.chance(30)) {
      auto Cl = L->clone();
      L.reset();
      judge(C, *Cl, M, "clone");
      L = std::move(Cl);
      C.note("clones");
    }
    if (K == 2) {
      // edited in place, and back
      auto Cur = M;
      uniqueLocs(Cur);
      for (uint64_t N = R.below(4); N && !C.Failed; --N) {
        Handles H(*L, Cur);
        OpGen G(R, Cur, false, true);
        {
          auto T = ModTx::openTransaction(*L);
          for (uint64_t S = 1 + R.below(5); S; --S) {
            EditOp E;
            G.next(E);
            C.say(E.text());
            stage(T, E, H);
          }
          T.commit();
        }
        Cur = G.M;
        Model Re = snap(*L);
        Re.Name = Cur.Name;
        if (canon(Re) != canon(Cur)) {
          C.note("edit_differs"); // judged by C10
          break;
        }
        Cur = Re;
        judge(C, *L, Cur, "edited");
        C.note("edited_models");
      }
    }
  }
  // features of no model, and of different ones: by name
  for (int K = 0; K < 6; ++K) {
    static const std::vector<std::string> P = {"a", "A", "b", "B", "ab", "_", "Z", "aa", "\xc3\xa4", "\xc3\x84", "1", "", "[", "a b"};
    auto X = R.pick(P), Y = R.pick(P);
    vfe::BinaryFeature A(X);
    vfe::NumericFeature B(Y, std::pair<int64_t, int64_t>(0, 1));
    C.check((A < B) == (low(X) < low(Y)) && (A > B) == (low(X) > low(Y)), "less", "detached " + X + ", " + Y);
    C.check((A == B) == (low(X) == low(Y)), "equality", "detached " + X + ", " + Y);
    C.check(low(X) != low(Y) || A.hash() == B.hash(), "hash", "detached " + X + ", " + Y);
    C.note("detached_pairs");
  }
  C.distinct(canon(M));
  C.sample(canon(M));
}
void probeShapes(Ctx &C) {
  // deep chain, wide root, comb
  for (int Shape = 0; Shape < 3; ++Shape) {
    Model M;
    MFeat X;
    X.Name = "root";
    X.Kind = 'r';
    M.F["root"] = X;
    X.Kind = 'b';
    std::string Prev = "root";
    for (int I = 0; I < 400; ++I) {
      X.Name = (I % 3 ? "f" : "F") + std::to_string((I * 7919) % 1000);
      if (M.F.count(X.Name)) {
        continue;
      }
      X.Parent = Shape == 1 ? "root" : Prev;
      M.F[X.Name] = X;
      if (Shape == 0 || (Shape == 2 && I % 2)) {
        Prev = X.Name;
      }
    }
    auto L = buildTx(C.R, M);
    judge(C, *L, M, "shape");
    C.eq(static_cast<size_t>(L->size()), M.F.size(), "size", "size");
  }
  // all insertion orders of a small tree
  Model M;
  auto Add = [&](const char *N, const char *P, char K = 'b') {
    MFeat X;
    X.Name = N;
    X.Parent = P;
    X.Kind = K;
    M.F[N] = X;
  };
  Add("root", "", 'r');
  Add("b", "root");
  Add("A", "root");
  Add("c", "A");
  Add("B2", "A");
  auto L = buildTx(C.R, M);
  std::vector<vfe::Feature *> V;
  for (auto *F : std::as_const(*L).unorderedFeatures()) {
    V.push_back(F);
  }
  std::sort(V.begin(), V.end());
  do {
    vfe::deprecated::OrderedFeatureVector O;
    for (auto *F : V) {
      O.insert(F);
    }
    std::vector<vfe::Feature *> G(O.begin(), O.end());
    C.check(names(G) == M.dfs(), "vector", "insertion order " + join(names(V)) + " gives " + join(names(G)));
    C.note("insertion_orders");
  } while (std::next_permutation(V.begin(), V.end()));
}
} // namespace
int main(int argc, char **argv) { return harnessMain(argc, argv, run, {{"shapes", probeShapes}}); }
