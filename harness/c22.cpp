// C22: the graph export is valid DOT that shows the model; the viewer writes it.
#include "model.h"
#include "vara/Feature/FeatureModelParser.h"
#include "vara/Feature/FeatureModelWriter.h"
#include "llvm/Support/GraphWriter.h"
#include <fstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
using namespace vf;

namespace {
//===-------------------------------------------------------------------===//
// own reader of the DOT language
struct DNode {
  int Stmts = 0; // statements with attributes
  std::map<std::string, std::string> A;
};
struct DEdge {
  std::string From, To;
  std::map<std::string, std::string> A;
};
struct Dot {
  std::string Name, Err;
  std::map<std::string, DNode> N;
  std::vector<DEdge> E;
  std::map<std::string, std::string> GA;
};
class DotReader {
  const std::string &T;
  size_t P = 0;
  Dot &D;
  struct Tok {
    char K; // 0 end, 'i' id, 's' quoted, 'h' html, '>' arrow, else itself
    std::string S;
  } Cur;
  void bad(const std::string &W) {
    if (D.Err.empty()) {
      D.Err = W + " at byte " + std::to_string(P);
    }
    P = T.size();
    Cur = {0, ""};
  }
  void next() {
    while (P < T.size() && (T[P] == ' ' || T[P] == '\n' || T[P] == '\t' || T[P] == '\r')) {
      ++P;
    }
    if (P >= T.size()) {
      Cur = {0, ""};
      return;
    }
    char C = T[P];
    if (C == '-' && P + 1 < T.size() && T[P + 1] == '>') {
      P += 2;
      Cur = {'>', ""};
    } else if (C == '"') {
      std::string S;
      for (++P; P < T.size() && T[P] != '"'; ++P) {
        if (T[P] == '\\' && P + 1 < T.size() && T[P + 1] == '"') {
          ++P;
        } else if (T[P] == '\\' && P + 1 < T.size() && T[P + 1] == '\\') {
          S += '\\';
          ++P;
        }
        S += T[P];
      }
      if (P >= T.size()) {
        return bad("open string");
      }
      ++P;
      Cur = {'s', S};
    } else if (C == '<') {
      int L = 0;
      size_t B = P + 1;
      for (; P < T.size(); ++P) {
        L += T[P] == '<';
        L -= T[P] == '>';
        if (!L) {
          break;
        }
      }
      if (P >= T.size()) {
        return bad("open HTML text");
      }
      Cur = {'h', T.substr(B, P - B)};
      ++P;
    } else if (isalnum(static_cast<unsigned char>(C)) || C == '_' || C == '.' || C == '-' || (C & 0x80)) {
      size_t B = P++;
      while (P < T.size() && (isalnum(static_cast<unsigned char>(T[P])) || T[P] == '_' || T[P] == '.' || (T[P] & 0x80))) {
        ++P;
      }
      Cur = {'i', T.substr(B, P - B)};
    } else if (std::string("{}[];=,").find(C) != std::string::npos) {
      ++P;
      Cur = {C, ""};
    } else {
      bad(std::string("character ") + C);
    }
  }
  bool id() const { return Cur.K == 'i' || Cur.K == 's' || Cur.K == 'h'; }
  void expect(char K) {
    if (Cur.K != K) {
      return bad(std::string("expected ") + K);
    }
    next();
  }
  std::map<std::string, std::string> attrs() {
    std::map<std::string, std::string> A;
    while (Cur.K == '[') {
      next();
      while (id()) {
        auto K = Cur.S;
        next();
        expect('=');
        if (!id()) {
          bad("value expected");
          return A;
        }
        A[K] = (Cur.K == 'h' ? "\1" : "") + Cur.S;
        next();
        if (Cur.K == ',' || Cur.K == ';') {
          next();
        }
      }
      expect(']');
    }
    return A;
  }
  void stmts(bool Top) {
    while (D.Err.empty() && Cur.K != '}' && Cur.K != 0) {
      if (Cur.K == ';') {
        next();
        continue;
      }
      if (Cur.K == '{') {
        next();
        stmts(false);
        expect('}');
        continue;
      }
      if (!id()) {
        return bad("statement expected");
      }
      auto A = Cur;
      next();
      if (A.K == 'i' && A.S == "subgraph") {
        if (id()) {
          next();
        }
        expect('{');
        stmts(false);
        expect('}');
      } else if (A.K == 'i' && (A.S == "graph" || A.S == "node" || A.S == "edge")) {
        auto X = attrs();
        if (Top && A.S == "graph") {
          D.GA = X;
        }
      } else if (Cur.K == '=') {
        next();
        if (!id()) {
          return bad("value expected");
        }
        next();
      } else if (Cur.K == '>') {
        std::vector<std::string> Chain{A.S};
        while (Cur.K == '>') {
          next();
          if (!id()) {
            return bad("node expected");
          }
          Chain.push_back(Cur.S);
          next();
        }
        auto X = attrs();
        for (auto &S : Chain) {
          D.N[S];
        }
        for (size_t I = 1; I < Chain.size(); ++I) {
          D.E.push_back({Chain[I - 1], Chain[I], X});
        }
      } else {
        bool Has = Cur.K == '[';
        auto X = attrs();
        auto &N = D.N[A.S];
        N.Stmts += Has;
        for (auto &[K, V] : X) {
          N.A[K] = V;
        }
      }
    }
  }

public:
  DotReader(const std::string &T, Dot &D) : T(T), D(D) {
    next();
    if (Cur.K == 'i' && Cur.S == "strict") {
      bad("strict graph");
      return;
    }
    if (Cur.K != 'i' || Cur.S != "digraph") {
      bad("not a digraph");
      return;
    }
    next();
    if (id()) {
      D.Name = Cur.S;
      next();
    }
    expect('{');
    stmts(true);
    expect('}');
    if (Cur.K != 0) {
      bad("text behind the graph");
    }
  }
};

std::string unescape(const std::string &S, std::string &Err) {
  std::string O;
  for (size_t I = 0; I < S.size(); ++I) {
    if (S[I] != '&') {
      O += S[I];
      continue;
    }
    size_t E = S.find(';', I);
    auto W = E == std::string::npos ? "" : S.substr(I + 1, E - I - 1);
    if (W == "amp") {
      O += '&';
    } else if (W == "lt") {
      O += '<';
    } else if (W == "gt") {
      O += '>';
    } else if (W == "quot") {
      O += '"';
    } else if (W == "apos" || W == "#39") {
      O += '\'';
    } else {
      Err = "entity in " + S;
      return O;
    }
    I = E;
  }
  return O;
}
// texts of the cells of an HTML label; tags must nest
std::vector<std::string> cells(const std::string &H, std::string &Err) {
  std::vector<std::string> Out, Open;
  std::string Text;
  for (size_t I = 0; I < H.size();) {
    if (H[I] != '<') {
      size_t J = std::min(H.find('<', I), H.size());
      auto T = unescape(H.substr(I, J - I), Err);
      bool In = std::find(Open.begin(), Open.end(), "td") != Open.end();
      if (In) {
        Text += T;
      } else if (!llvm::StringRef(T).trim().empty()) {
        Err = "text outside cells: " + T;
      }
      I = J;
      continue;
    }
    size_t J = H.find('>', I);
    if (J == std::string::npos) {
      Err = "open tag";
      return Out;
    }
    auto Tag = H.substr(I + 1, J - I - 1);
    I = J + 1;
    bool Close = !Tag.empty() && Tag[0] == '/', Self = !Tag.empty() && Tag.back() == '/';
    auto Name = llvm::StringRef(Tag).trim('/').split(' ').first.lower();
    if (Close) {
      if (Open.empty() || Open.back() != Name) {
        Err = "tags do not nest: " + Name;
        return Out;
      }
      Open.pop_back();
      if (Name == "td") {
        Out.push_back(Text);
      }
    } else {
      if (Name == "td") {
        Text.clear();
      }
      if (!Self) {
        Open.push_back(Name);
      }
    }
  }
  if (!Open.empty()) {
    Err = "tag not closed: " + Open.back();
  }
  return Out;
}

//===-------------------------------------------------------------------===//
std::string locShown(const MLoc &L) {
  std::string S = L.Path;
  if (L.S) {
    S += ":" + std::to_string(L.S->first) + ":" + std::to_string(L.S->second);
  }
  if (L.E) {
    S += "\xe2\x80\x93" + std::to_string(L.E->first) + ":" + std::to_string(L.E->second);
  }
  if (L.Member) {
    S += " MemberOffset: " + *L.Member;
  }
  return S;
}
std::string trim(const std::string &S) { return llvm::StringRef(S).trim().str(); }
std::string joinV(const std::vector<std::string> &V) {
  std::string S;
  for (auto &X : V) {
    S += "  [" + X + "]\n";
  }
  return S;
}
// does the text show exactly this model?
void judge(Ctx &C, const std::string &T, const Model &M, const std::string &What) {
  C.note("graphs");
  Dot D;
  DotReader(T, D);
  if (!C.check(D.Err.empty(), "dot", What + ": not DOT: " + D.Err + "\n" + T)) {
    return;
  }
  std::map<std::string, std::string> Feat; // node -> feature
  std::set<std::string> Groups, Shown;
  std::map<std::string, bool> Alt;
  for (auto &[Id, N] : D.N) {
    if (!C.check(N.Stmts == 1, "nodes", What + ": node " + Id + " has " + std::to_string(N.Stmts) + " descriptions\n" + T)) {
      return;
    }
    auto It = N.A.find("label");
    if (!C.check(It != N.A.end(), "nodes", What + ": node without label")) {
      return;
    }
    auto L = It->second;
    if (L.empty() || L[0] != '\1') {
      C.check(L == "ALTERNATIVE" || L == "OR", "nodes", What + ": node labelled " + L);
      Groups.insert(Id);
      Alt[Id] = L == "ALTERNATIVE";
      continue;
    }
    std::string Err;
    auto Cs = cells(L.substr(1), Err);
    if (!C.check(Err.empty() && !Cs.empty(), "label", What + ": label " + L.substr(1) + ": " + Err)) {
      return;
    }
    const MFeat *F = nullptr;
    for (auto &[K, X] : M.F) {
      if (Cs[0] == X.Name + " (Flag: " + trim(X.Out) + ")") {
        F = &X;
      }
    }
    if (!C.check(F != nullptr, "names", What + ": no feature is shown as " + Cs[0])) {
      return;
    }
    C.check(Shown.insert(F->Name).second, "nodes", What + ": feature " + F->Name + " shown twice");
    Feat[Id] = F->Name;
    // constraints (at least once each, at most once per mention), then locations
    std::vector<std::string> Want;
    std::map<std::string, std::pair<int, int>> Cons; // text -> constraints, mentions
    for (auto &X : M.allCons()) {
      std::multiset<std::string> S;
      std::function<void(const E &)> Go = [&](const E &Y) {
        if (!Y) {
          return;
        }
        if (Y->O == Op::Feat) {
          S.insert(Y->Name);
        }
        Go(Y->L);
        Go(Y->R);
      };
      Go(X.X);
      if (S.count(F->Name)) {
        auto Text = mkExpr(X.X)->toString();
        Cons[Text].first++;
        Cons[Text].second += static_cast<int>(S.count(F->Name));
      }
    }
    std::map<std::string, int> Rest;
    for (auto &X : F->Locs) {
      ++Rest[locShown(X)];
    }
    size_t NLoc = F->Locs.size();
    if (!C.check(Cs.size() >= 1 + NLoc, "locations", What + ": " + F->Name + " shows\n" + joinV(Cs))) {
      return;
    }
    for (size_t I = Cs.size() - NLoc; I < Cs.size(); ++I) {
      C.check(Rest[Cs[I]]-- > 0, "locations", What + ": " + F->Name + " shows location " + Cs[I] + "\n" + canon(M));
      C.note("locations");
    }
    std::map<std::string, int> Got;
    for (size_t I = 1; I + NLoc < Cs.size(); ++I) {
      ++Got[Cs[I]];
      C.note("constraint_rows");
      C.check(Cons.count(Cs[I]) > 0, "constraints", What + ": " + F->Name + " shows " + Cs[I] + ", no constraint about it");
    }
    for (auto &[X, N] : Cons) {
      C.check(Got[X] >= N.first && Got[X] <= N.second, "constraints",
              What + ": " + F->Name + " shows " + X + " " + std::to_string(Got[X]) + " times, there are " +
                  std::to_string(N.first));
    }
  }
  C.check(Shown.size() == M.F.size(), "nodes",
          What + ": " + std::to_string(Shown.size()) + " of " + std::to_string(M.F.size()) + " features shown");
  C.eq(Groups.size(), M.G.size(), "groups", What + ": groups shown");
  C.note("nodes", D.N.size());
  C.note("edges", D.E.size());
  auto Nm = [&](const std::string &Id) { return Feat.count(Id) ? Feat[Id] : Id; };
  // tree
  std::map<std::string, std::string> Above; // node -> node
  std::map<std::string, std::map<std::string, std::string>> Attr;
  for (auto &X : D.E) {
    C.check(Above.emplace(X.To, X.From).second, "edges", What + ": two edges lead to " + Nm(X.To) + "\n" + T);
    Attr[X.To] = X.A;
  }
  if (C.Failed) {
    return;
  }
  for (auto &[Id, N] : Feat) {
    auto &X = M.F.at(N);
    auto It = Above.find(Id);
    if (N == M.Root) {
      C.check(It == Above.end(), "edges", What + ": an edge leads to the root");
      continue;
    }
    if (!C.check(It != Above.end(), "edges", What + ": no edge leads to " + N)) {
      continue;
    }
    C.check(Attr[Id]["arrowhead"] == (X.Opt ? "odot" : "dot"), "optional",
            What + ": " + N + " optional=" + std::to_string(X.Opt) + " has arrow head " + Attr[Id]["arrowhead"]);
    auto Up = It->second;
    bool ViaGroup = Groups.count(Up) > 0;
    C.check(ViaGroup == (X.Group >= 0), "groups", What + ": " + N + (ViaGroup ? " is" : " is not") + " below a group node");
    if (ViaGroup) {
      Up = Above.count(Up) ? Above[Up] : "";
    }
    C.check(Feat.count(Up) && Feat[Up] == X.Parent, "edges", What + ": " + N + " is shown below " + Nm(Up) + ", parent is " + X.Parent);
  }
  std::multiset<std::string> GGot, GWant;
  for (auto &G : Groups) {
    std::set<std::string> Ms;
    for (auto &[To, From] : Above) {
      if (From == G) {
        Ms.insert(Nm(To));
      }
    }
    std::string S = std::string(Alt[G] ? "alternative" : "or") + " below " + (Above.count(G) ? Nm(Above[G]) : "?") + ":";
    for (auto &X : Ms) {
      S += " " + X;
    }
    GGot.insert(S);
    C.check(Attr[G]["arrowhead"] == "none", "groups", What + ": edge to a group has arrow head " + Attr[G]["arrowhead"]);
  }
  for (size_t I = 0; I < M.G.size(); ++I) {
    std::string S = std::string(M.G[I].Alt ? "alternative" : "or") + " below " + M.G[I].Parent + ":";
    for (auto &X : M.members(static_cast<int>(I))) {
      S += " " + X;
    }
    GWant.insert(S);
  }
  C.check(GGot == GWant, "groups", What + ": groups shown\n" + joinV({GGot.begin(), GGot.end()}) + "of\n" +
                                       joinV({GWant.begin(), GWant.end()}));
}

std::string graphOf(FM &L, Rng &R) {
  std::string S;
  llvm::raw_string_ostream O(S);
  switch (R.below(3)) {
  case 0: llvm::WriteGraph(O, &L); break;
  case 1: llvm::WriteGraph(O, &L, R.chance(50), L.getName()); break;
  default: llvm::WriteGraph(O, &L, false, genText(R, true, false));
  }
  return O.str();
}
void longNames(Rng &R, Model &M) { // output strings with layout and markup
  static const std::vector<std::string> P = {"<b>", "</td>", "&lt;", "&", "\"", "\\", "\\n", "\n", " ", "{0}", "->", "];", "]]>", "<!--", "'"};
  for (auto &[K, X] : M.F) {
    if ((X.Kind == 'b' || X.Kind == 'n') && R.chance(25)) {
      X.Out.clear();
      for (auto N = R.below(5); N; --N) {
        X.Out += R.pick(P);
      }
    }
  }
}
Model freeModel(Rng &R) {
  GenOpt O;
  O.MaxF = R.chance(10) ? 30 : 9;
  O.MinF = 0;
  O.Cons = 6;
  O.EmptyOut = R.chance(20);
  Model M = genModel(R, O);
  if (R.chance(20)) { // groups without members
    for (uint64_t N = 1 + R.below(2); N; --N) {
      auto P = R.pick(M.names());
      if (M.childrenOf(P).empty() && std::none_of(M.G.begin(), M.G.end(), [&](auto &G) { return G.Parent == P; })) {
        M.G.push_back({R.chance(50), P});
      }
    }
  }
  if (R.chance(40)) {
    weirdNames(R, M);
  }
  if (R.chance(50)) {
    longNames(R, M);
  }
  return M;
}
Model xmlModel(Rng &R) {
  GenOpt O;
  O.MaxF = 8;
  O.MinF = 0;
  O.Groups = 0;
  O.Textual = true;
  O.XmlRoot = true;
  O.FullLocs = true;
  Model M = genModel(R, O);
  if (R.chance(50)) {
    addExclusions(R, M, 60, 20);
  }
  if (R.chance(30)) {
    weirdNames(R, M);
  }
  return M;
}

//===-------------------------------------------------------------------===//
// running the viewer
struct Dir {
  std::string P;
  Dir() {
    char T[] = "/tmp/c22XXXXXX";
    P = mkdtemp(T) ? T : "";
  }
  std::vector<std::string> files() const {
    std::vector<std::string> V;
    if (auto *D = opendir(P.c_str())) {
      while (auto *E = readdir(D)) {
        std::string N = E->d_name;
        if (N != "." && N != ".." && N != ".out" && N != ".err") {
          V.push_back(E->d_name);
        }
      }
      closedir(D);
    }
    return V;
  }
  ~Dir() {
    for (auto &F : files()) {
      auto X = P + "/" + F;
      if (unlink(X.c_str()) != 0) {
        rmdir(X.c_str());
      }
    }
    rmdir(P.c_str());
  }
};
std::string slurp(const std::string &P) {
  std::ifstream I(P, std::ios::binary);
  std::stringstream S;
  S << I.rdbuf();
  return S.str();
}
bool there(const std::string &P) {
  struct stat X {};
  return stat(P.c_str(), &X) == 0;
}
struct Ran {
  int Code = -1;
  bool Signal = false;
  std::string Out, Err;
};
Ran call(const std::vector<std::string> &Args, const std::string &D, const std::string &Flags = "") {
  Ran R;
  auto O = D + "/.out", E = D + "/.err";
  pid_t Pid = fork();
  if (Pid == 0) {
    int FO = open(O.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), FE = open(E.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(FO, 1);
    dup2(FE, 2);
    if (chdir(D.c_str()) != 0) {
      _exit(126);
    }
    setenv("TMPDIR", D.c_str(), 1);
    if (Flags.empty()) {
      unsetenv("FM_VIEWER_FLAGS");
    } else {
      setenv("FM_VIEWER_FLAGS", Flags.c_str(), 1);
    }
    std::vector<char *> A;
    for (auto &X : Args) {
      A.push_back(const_cast<char *>(X.c_str()));
    }
    A.push_back(nullptr);
    execv(A[0], A.data());
    _exit(127);
  }
  int St = 0;
  if (Pid < 0 || waitpid(Pid, &St, 0) < 0) {
    return R;
  }
  R.Signal = !WIFEXITED(St);
  R.Code = WIFEXITED(St) ? WEXITSTATUS(St) : WTERMSIG(St);
  R.Out = slurp(O);
  R.Err = slurp(E);
  unlink(O.c_str());
  unlink(E.c_str());
  return R;
}
std::string viewer() {
  auto *V = getenv("VERIF_VIEWER");
  return V ? V : "";
}
bool quiet(Ctx &C, const Ran &R, const std::string &What) {
  return C.check(!R.Signal && R.Code != 99 && R.Err.find("Sanitizer") == std::string::npos &&
                     R.Err.find("runtime error") == std::string::npos && R.Err.find("PLEASE submit") == std::string::npos,
                 "viewer-crash", What + ": the viewer dies (" + std::to_string(R.Code) + ")\n" + R.Err);
}
std::string showArgs(const std::vector<std::string> &A) {
  std::string S;
  for (auto &X : A) {
    S += X + " ";
  }
  return S;
}
void viewGood(Ctx &C) {
  auto &R = C.R;
  Dir D;
  auto M = xmlModel(R);
  auto Want = xmlMeaning(M);
  std::string T = XmlOut(R, M, {R.chance(20)}).text();
  C.say(T);
  C.distinct("v" + canon(Want));
  static const std::vector<std::string> Ins = {"m.xml", "a b.xml", "model", "\xc3\xa4.xml", "x.dot.xml"};
  auto In = R.pick(Ins);
  std::ofstream(D.P + "/" + In, std::ios::binary) << T;
  static const std::vector<std::string> Outs = {"g.dot", "out put.dot", "noext", "g.txt"};
  auto Out = R.pick(Outs);
  std::vector<std::string> A{viewer()};
  std::string Flags;
  if (R.chance(40)) {
    A.push_back("--verify");
  } else if (R.chance(10)) {
    Flags = "--verify";
  }
  if (R.chance(15)) {
    A.push_back("--xml");
  }
  int Mode = R.chance(15) ? 1 : R.chance(15) ? 2 : 0;
  bool First = R.chance(50);
  if (First) {
    A.push_back(R.chance(50) ? In : D.P + "/" + In);
  }
  if (Mode == 0) {
    if (R.chance(20)) {
      std::ofstream(D.P + "/" + Out) << std::string(100000, 'x'); // old content
    }
    A.push_back("-o");
    A.push_back(Out);
  } else if (Mode == 1) {
    A.push_back("--viewer=true");
  } else {
    A.push_back("--dump");
  }
  if (!First) {
    A.push_back(In);
  }
  C.say(showArgs(A));
  auto X = call(A, D.P, Flags);
  C.note("viewer_runs");
  if (!quiet(C, X, showArgs(A))) {
    return;
  }
  C.check(X.Code == 0, "viewer-fails", showArgs(A) + ": exit " + std::to_string(X.Code) + "\n" + X.Err);
  C.check(slurp(D.P + "/" + In) == T, "viewer-input", "the viewer changes its input");
  auto Fs = D.files();
  if (Mode == 2) {
    C.check(Fs.size() == 1, "viewer-files", "dump leaves files");
    return;
  }
  std::string File = Out;
  if (Mode == 1) {
    File.clear();
    for (auto &F : Fs) {
      if (F != In) {
        C.check(File.empty(), "viewer-files", "several files written");
        File = F;
      }
    }
  }
  if (!C.check(!File.empty() && there(D.P + "/" + File) && Fs.size() == 2, "viewer-files", showArgs(A) + ": no graph written, or more\n" + X.Err)) {
    return;
  }
  judge(C, slurp(D.P + "/" + File), Want, "viewer");
}
void viewBad(Ctx &C) {
  auto &R = C.R;
  Dir D;
  auto M = xmlModel(R);
  std::string T = XmlOut(R, M, {true}).text();
  auto Sub = [&](const std::string &A, const std::string &B) {
    auto P = T.rfind(A);
    if (P == std::string::npos) {
      return false;
    }
    T.replace(P, A.size(), B);
    return true;
  };
  auto In = D.P + "/m.xml";
  std::string What;
  bool Write = true;
  std::vector<std::string> A{viewer()};
  if (R.chance(40)) {
    A.push_back("--verify");
  }
  std::string Out = D.P + "/g.dot";
  bool Sound = false;
  switch (R.below(11)) {
  case 0: What = "no such file"; Write = false; break;
  case 1: What = "a directory"; Write = false; mkdir(In.c_str(), 0700); break;
  case 2: What = "empty file"; T.clear(); break;
  case 3: What = "cut file"; T.resize(T.rfind("</vm>")); break;
  case 4: What = "other element"; Sub("</vm>", "<x/></vm>"); break;
  case 5: What = "missing element"; if (!Sub("</binaryOptions>", "<configurationOption></configurationOption></binaryOptions>")) { Sub("</vm>", "</vn>"); } break;
  case 6: What = "unknown parent"; Sub("</binaryOptions>", "<configurationOption><name>qqq</name><optional>True</optional><parent>nobody</parent></configurationOption></binaryOptions>"); break;
  case 7: What = "name twice"; Sub("</binaryOptions>", "<configurationOption><name>qqq</name><optional>True</optional></configurationOption><configurationOption><name>qqq</name><optional>True</optional></configurationOption></binaryOptions>"); break;
  case 8: What = "unknown feature in a constraint"; Sub("</binaryOptions>", "<configurationOption><name>qqq</name><impliedOptions><option>nobody</option></impliedOptions><optional>True</optional></configurationOption></binaryOptions>"); break;
  case 9: What = "no file given"; Write = false; break;
  default: What = "graph cannot be written"; Out = D.P + "/no/such/dir/g.dot"; Sound = true;
  }
  if (Write) {
    std::ofstream(In, std::ios::binary) << T;
  }
  if (What != "no file given") {
    A.push_back(In);
  }
  switch (Sound ? 0 : R.below(4)) {
  case 0:
  case 1: A.push_back("-o"); A.push_back(Out); break;
  case 2: A.push_back("--dump"); break;
  default: A.push_back("--viewer=true");
  }
  C.say(What + "\n" + T + "\n" + showArgs(A));
  auto X = call(A, D.P);
  C.note("viewer_refusals");
  if (!quiet(C, X, What)) {
    return;
  }
  C.check(X.Code != 0, "viewer-accepts", What + ": exit 0\n" + X.Err);
  C.check(!X.Err.empty(), "viewer-silent", What + ": nothing said");
  for (auto &F : D.files()) {
    C.check(F == "m.xml", "viewer-files", What + ": left " + F);
  }
}

void run(Ctx &C) {
  auto &R = C.R;
  if (R.chance(3) && !viewer().empty()) {
    R.chance(60) ? viewGood(C) : viewBad(C);
    return;
  }
  auto M = freeModel(R);
  auto L = build(R, M);
  C.say(canon(M));
  if (!C.check(L != nullptr, "build", "not built")) {
    return;
  }
  if (R.chance(25)) {
    auto L2 = L->clone();
    C.check(L2 != nullptr, "build", "not cloned");
    L = std::move(L2);
  }
  C.distinct(canon(M));
  auto Before = sound(C, *L, "model");
  auto T = graphOf(*L, R);
  C.sample(T);
  judge(C, T, Before, "graph");
  sameModel(C, sound(C, *L, "model"), Before, "export-changes", "exporting changes the model");
  sameModel(C, Before, M, "build", "model built");
}

// Graphviz reads the texts
void graphviz(Ctx &C, int Salt) {
  for (int I = 0; I < Salt * 7; ++I) {
    C.R.next();
  }
  Dir D;
  auto P = D.P + "/all.dot";
  std::vector<std::pair<size_t, size_t>> Want;
  {
    std::ofstream O(P, std::ios::binary);
    for (int I = 0; I < 60; ++I) {
      auto M = freeModel(C.R);
      auto L = build(C.R, M);
      if (!L) {
        C.fail("build", "not built");
        return;
      }
      if (M.F.size() > 14) {
        --I;
        continue;
      }
      O << graphOf(*L, C.R) << "\n";
      Want.emplace_back(M.F.size() + M.G.size(), M.F.size() + M.G.size() - 1);
    }
  }
  auto X = call({"/usr/bin/dot", "-Tplain", "-q0", P}, D.P);
  if (X.Code == 127) {
    C.note("graphviz_missing");
    return;
  }
  C.check(!X.Signal && X.Code == 0, "graphviz", "dot: exit " + std::to_string(X.Code) + "\n" + X.Err + "\n" + slurp(P).substr(0, 3000));
  // warnings about fonts and sizes are not about the text
  std::istringstream Es(X.Err);
  for (std::string Ln; std::getline(Es, Ln);) {
    C.check(Ln.find("rror") == std::string::npos || Ln.find("font") != std::string::npos, "graphviz", Ln);
  }
  std::istringstream In(X.Out);
  std::string Ln;
  size_t Gs = 0, Ns = 0, Es2 = 0;
  while (std::getline(In, Ln)) {
    // long labels are continued on further lines, so only line starts count
    if (Ln.rfind("node node_", 0) == 0) {
      ++Ns;
    } else if (Ln.rfind("edge node_", 0) == 0) {
      ++Es2;
    } else if (Ln == "stop") {
      if (Gs < Want.size()) {
        C.eq(Ns, Want[Gs].first, "graphviz", "nodes of graph " + std::to_string(Gs));
        C.eq(Es2, Want[Gs].second, "graphviz", "edges of graph " + std::to_string(Gs));
      }
      ++Gs;
      Ns = Es2 = 0;
    }
  }
  C.eq(Gs, Want.size(), "graphviz", "graphs read by dot");
  unlink(P.c_str());
}
template <int N> void gv(Ctx &C) { graphviz(C, N); }
void viewers(Ctx &C) {
  if (viewer().empty()) {
    C.fail("viewer", "no viewer");
    return;
  }
  for (int I = 0; I < 25; ++I) {
    viewGood(C);
    viewBad(C);
  }
}
} // namespace
int main(int Argc, char **Argv) {
  return harnessMain(Argc, Argv, run,
                     {{"viewers", viewers}, {"graphviz1", gv<1>}, {"graphviz2", gv<2>}, {"graphviz3", gv<3>}, {"graphviz4", gv<4>},
                      {"graphviz5", gv<5>}, {"graphviz6", gv<6>}});
}
