// C21: source ranges, member offsets and location edits against plain data.
#include "common.h"
#include "vara/Feature/Feature.h"
using namespace vf;
namespace vfe = vara::feature;
using FSR = vfe::FeatureSourceRange;

namespace {
struct L {
  std::string Path;
  std::optional<std::pair<unsigned, unsigned>> S, E;
  bool Iness = false;
  std::optional<std::string> Member;
  std::optional<std::pair<std::string, std::optional<std::string>>> Rev;
  std::string id() const { // what equality looks at
    std::string O = Path + "|";
    for (auto *P : {&S, &E}) {
      O += *P ? std::to_string((*P)->first) + ":" + std::to_string((*P)->second) + "|" : "-|";
    }
    return O + (Iness ? "i|" : "n|") + (Member ? "m" + *Member : "-");
  }
  std::string full() const {
    return id() + "|" + (Rev ? Rev->first + ".." + (Rev->second ? "r" + *Rev->second : "-") : "-");
  }
};

L read(FSR &F) {
  L X;
  X.Path = F.getPath().string();
  if (F.hasStart()) {
    X.S = {F.getStart()->getLineNumber(), F.getStart()->getColumnOffset()};
  }
  if (F.hasEnd()) {
    X.E = {F.getEnd()->getLineNumber(), F.getEnd()->getColumnOffset()};
  }
  X.Iness = F.getCategory() == FSR::Category::inessential;
  if (F.hasMemberOffset()) {
    X.Member = F.getMemberOffset()->toString();
  }
  if (F.hasRevisionRange()) {
    auto *R = F.revisionRange();
    X.Rev = {R->introducingCommit().str(), std::nullopt};
    if (R->hasRemovingCommit()) {
      X.Rev->second = R->removingCommit().str();
    }
  }
  return X;
}
// presence queries and pointers agree
void presence(Ctx &C, FSR &F) {
  C.eq(F.hasStart(), F.getStart() != nullptr, "presence", "start");
  C.eq(F.hasEnd(), F.getEnd() != nullptr, "presence", "end");
  C.eq(F.hasMemberOffset(), F.getMemberOffset() != nullptr, "presence", "member offset");
  C.eq(F.hasRevisionRange(), F.revisionRange() != nullptr, "presence", "revision range");
  if (F.hasRevisionRange() && !F.revisionRange()->hasRemovingCommit()) {
    C.check(F.revisionRange()->removingCommit().empty(), "presence", "absent removing commit is not empty");
  }
}

FSR make(Rng &R, const L &X) {
  auto Pos = [](auto &P) {
    return P ? std::optional<FSR::FeatureSourceLocation>(FSR::FeatureSourceLocation(P->first, P->second)) : std::nullopt;
  };
  std::optional<FSR::FeatureMemberOffset> M;
  if (X.Member) {
    M = FSR::FeatureMemberOffset::createFeatureMemberOffset(*X.Member);
  }
  std::optional<FSR::FeatureRevisionRange> V;
  if (X.Rev) {
    V = X.Rev->second ? FSR::FeatureRevisionRange(X.Rev->first, *X.Rev->second) : FSR::FeatureRevisionRange(X.Rev->first);
  }
  auto Cat = X.Iness ? FSR::Category::inessential : FSR::Category::necessary;
  if (X.S && X.E && R.chance(50)) {
    return FSR(fs::path(X.Path), *Pos(X.S), *Pos(X.E), Cat, M, V);
  }
  return FSR(fs::path(X.Path), Pos(X.S), Pos(X.E), Cat, M, V);
}

unsigned someNum(Rng &R) {
  switch (R.below(4)) {
  case 0: return static_cast<unsigned>(R.below(3));
  case 1: return UINT32_MAX - static_cast<unsigned>(R.below(2));
  case 2: return static_cast<unsigned>(R.next());
  default: return static_cast<unsigned>(R.below(200));
  }
}

L someLoc(Rng &R, bool Small) {
  static const std::vector<std::string> Paths = {"a.cpp", "b.cpp", "src/a.cpp", "", "a b.cpp", "/abs/x.h", "../up.c", "ä.cpp",
                                                 "./b.cpp", "src/../b.cpp", "src/./a.cpp"};
  static const std::vector<std::string> Mem = {"C::m", "N::C::m", "::m", "C::n", "N::D::m"};
  L X;
  X.Path = R.pick(Paths);
  auto Pos = [&]() -> std::pair<unsigned, unsigned> {
    return Small ? std::pair<unsigned, unsigned>{R.below(2), R.below(2)} : std::pair<unsigned, unsigned>{someNum(R), someNum(R)};
  };
  if (R.chance(70)) {
    X.S = Pos();
  }
  if (R.chance(70)) {
    X.E = Pos();
  }
  X.Iness = R.chance(35);
  if (R.chance(35)) {
    X.Member = R.pick(Mem);
  }
  if (R.chance(35)) {
    X.Rev = {R.chance(50) ? "abc" : "1", std::nullopt};
    if (R.chance(50)) {
      X.Rev->second = R.chance(80) ? "def" : "";
    }
  }
  return X;
}

void memberOffset(Ctx &C) {
  auto &R = C.R;
  std::string T;
  static const std::vector<std::string> Tk = {"::", "::", "::", ":", "A", "Foo", "operator()", "~B", "x<int>", "", " ", "a.b", "ä"};
  size_t N = R.below(8);
  while (N--) {
    T += R.pick(Tk);
  }
  C.say("qualified name: " + T);
  C.distinct("mo " + T);
  size_t P = T.rfind("::");
  bool Ok = P != std::string::npos && P + 2 < T.size();
  auto M = FSR::FeatureMemberOffset::createFeatureMemberOffset(T);
  C.note(Ok ? "members_split" : "members_refused");
  C.eq(M.has_value(), Ok, "member-accept", "accepts " + T);
  C.eq(FSR::FeatureMemberOffset::isMemberOffsetFormat(T), Ok, "member-accept", "recognises " + T);
  if (!M || !Ok) {
    return;
  }
  C.eq(M->toString(), T, "member-print", "printed");
  C.eq(M->memberName(), T.substr(P + 2), "member-split", "member of " + T);
  std::string Cls = T.substr(0, P);
  std::vector<std::string> Parts;
  if (!Cls.empty()) {
    size_t I = 0;
    while (true) {
      size_t J = Cls.find("::", I);
      Parts.push_back(Cls.substr(I, J == std::string::npos ? J : J - I));
      if (J == std::string::npos) {
        break;
      }
      I = J + 2;
    }
  }
  C.eq(M->className(), Cls, "member-split", "class path of " + T);
  C.eq(M->nestingDepth(), Parts.size(), "member-split", "depth of " + T);
  for (size_t I = 0; I < Parts.size() && I < M->nestingDepth(); ++I) {
    C.eq(M->className(I), Parts[Parts.size() - 1 - I], "member-split", "class " + std::to_string(I) + " of " + T);
  }
  auto Same = FSR::FeatureMemberOffset::createFeatureMemberOffset(T);
  C.check(*M == *Same && !(*M != *Same), "member-equal", "equal names differ");
  for (auto &O : {T + "x", "x" + T, "x::" + T}) {
    auto D = FSR::FeatureMemberOffset::createFeatureMemberOffset(O);
    if (D) {
      C.check(*M != *D && !(*M == *D), "member-equal", T + " equals " + O);
    }
  }
}

void ranges(Ctx &C) {
  auto &R = C.R;
  L A = someLoc(R, R.chance(50));
  auto F = make(R, A);
  C.say("range: " + A.full());
  C.distinct(A.full());
  C.sample(A.full());
  C.note("ranges");
  presence(C, F);
  C.eq(read(F).full(), A.full(), "content", "range");
  // copies are values
  FSR Copy = F;
  L ACopy = A;
  for (int I = 0; I < 4; ++I) {
    switch (R.below(4)) {
    case 0:
      A.Iness = !A.Iness;
      F.setCategory(A.Iness ? FSR::Category::inessential : FSR::Category::necessary);
      break;
    case 1:
      A.Path = R.chance(50) ? "new/p.cpp" : "q";
      F.setPath(A.Path);
      break;
    case 2:
      if (A.S) {
        A.S->first = someNum(R);
        F.getStart()->setLineNumber(A.S->first);
      }
      break;
    default:
      if (A.E) {
        A.E->second = someNum(R);
        F.getEnd()->setColumnOffset(A.E->second);
      }
    }
    C.eq(read(F).full(), A.full(), "edit", "range after a change");
  }
  C.eq(read(Copy).full(), ACopy.full(), "copy", "copied range after changing the original");
  FSR Moved = std::move(Copy);
  C.eq(read(Moved).full(), ACopy.full(), "copy", "moved range");
  // equality: near misses
  L B = ACopy;
  switch (R.below(7)) {
  case 0:
    if (R.chance(50)) {
      B.Path += "x";
    } else if (B.Path.empty() || B.Path[0] != '/') {
      B.Path = (R.chance(50) ? "./" : "q/../") + B.Path; // another path, though maybe of the same file
    }
    break;
  case 1: B.Iness = !B.Iness; break;
  case 2: B.S = B.S ? std::optional(std::pair(B.S->first + 1, B.S->second)) : std::optional(std::pair(0U, 0U)); break;
  case 3: B.E = B.E ? std::optional(std::pair(B.E->first, B.E->second ^ 1)) : std::optional(std::pair(1U, 0U)); break;
  case 4: B.Member = B.Member ? std::nullopt : std::optional<std::string>("Z::z"); break;
  case 5: B.Rev = B.Rev ? decltype(B.Rev)() : decltype(B.Rev)({"zz", std::nullopt}); break;
  default: break;
  }
  auto G = make(R, B);
  bool Eq = B.id() == ACopy.id();
  C.eq(Moved == G, Eq, "equality", "<" + ACopy.full() + "> == <" + B.full() + ">");
  C.eq(G == Moved, Eq, "equality", "<" + B.full() + "> == <" + ACopy.full() + ">");
  C.eq(Moved != G, !Eq, "equality", "<" + ACopy.full() + "> != <" + B.full() + ">");
  // order of positions
  auto P = std::pair(someNum(R), someNum(R)), Q = R.chance(50) ? std::pair(P.first, someNum(R)) : std::pair(someNum(R), someNum(R));
  if (R.chance(15)) {
    Q = P;
  }
  FSR::FeatureSourceLocation X(P.first, P.second), Y(Q.first, Q.second);
  C.eq(X < Y, P < Q, "order", X.toString() + " < " + Y.toString());
  C.eq(X > Y, P > Q, "order", X.toString() + " > " + Y.toString());
  C.eq(X == Y, P == Q, "order", X.toString() + " == " + Y.toString());
  C.eq(X.toString(), std::to_string(P.first) + ":" + std::to_string(P.second), "print", "position");
}

void edits(Ctx &C) {
  auto &R = C.R;
  std::vector<L> Pool;
  size_t NP = 2 + R.below(5);
  for (size_t I = 0; I < NP; ++I) {
    Pool.push_back(someLoc(R, true));
  }
  std::vector<L> M;
  std::vector<FSR> Init;
  size_t N0 = R.below(4);
  for (size_t I = 0; I < N0; ++I) {
    M.push_back(R.pick(Pool));
    Init.push_back(make(R, M.back()));
  }
  std::unique_ptr<vfe::Feature> F;
  if (R.chance(50)) {
    F = std::make_unique<vfe::BinaryFeature>("F", false, Init);
  } else {
    F = std::make_unique<vfe::NumericFeature>("F", std::pair<int64_t, int64_t>(0, 1), true, Init);
  }
  std::string H = "init " + std::to_string(N0);
  auto Check = [&](const std::string &What) {
    std::string Got, Want;
    for (auto &X : F->getLocations()) {
      Got += read(X).full() + "\n";
    }
    for (auto &X : M) {
      Want += X.full() + "\n";
    }
    C.eq(Got, Want, "edit-list", What);
    C.eq(F->hasLocations(), !M.empty(), "edit-list", What + ": has locations");
    C.eq(static_cast<size_t>(F->getLocationsEnd() - F->getLocationsBegin()), M.size(), "edit-list", What + ": count");
  };
  Check("initial");
  size_t N = 1 + R.below(C.Thorough ? 30 : 12);
  for (size_t I = 0; I < N && !C.Failed; ++I) {
    L X = R.chance(85) ? R.pick(Pool) : someLoc(R, false);
    auto Pos = std::find_if(M.begin(), M.end(), [&](auto &Y) { return Y.id() == X.id(); });
    bool Has = Pos != M.end();
    switch (R.below(3)) {
    case 0:
      H += "; add " + X.full();
      F->addLocation(make(R, X));
      M.push_back(X);
      break;
    case 1: {
      H += "; remove " + X.full();
      auto Idx = static_cast<size_t>(Pos - M.begin());
      auto It = F->removeLocation(make(R, X));
      if (Has) {
        M.erase(Pos);
      }
      C.eq(static_cast<size_t>(It - F->getLocationsBegin()), Has ? Idx : M.size(), "edit-result", "position returned by removal");
      C.note(Has ? "removed" : "remove_absent");
      break;
    }
    default: {
      L Y = R.chance(60) ? R.pick(Pool) : someLoc(R, false);
      H += "; update " + X.full() + " to " + Y.full();
      bool Done = F->updateLocation(make(R, X), make(R, Y));
      C.eq(Done, Has, "edit-result", "update reports success");
      if (Has) {
        *Pos = Y;
      }
      C.note(Has ? "updated" : "update_absent");
    }
    }
    Check(H);
  }
  C.say(H);
  C.distinct(H);
  C.note("edit_histories");
}

void run(Ctx &C) {
  switch (C.R.below(4)) {
  case 0: memberOffset(C); return;
  case 1: ranges(C); return;
  default: edits(C);
  }
}
} // namespace
int main(int argc, char **argv) {
  return harnessMain(argc, argv, run,
                     {{"remove-absent", [](Ctx &C) {
                         vfe::BinaryFeature F("F");
                         F.removeLocation(FSR("a.cpp"));
                         C.check(!F.hasLocations(), "edit-list", "location appeared");
                         F.addLocation(FSR("a.cpp"));
                         F.removeLocation(FSR("b.cpp"));
                         C.check(F.hasLocations(), "edit-list", "location vanished");
                       }}});
}
