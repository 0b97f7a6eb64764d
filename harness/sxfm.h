// SXFM documents: an own writer in any style and an own strict reader.
#ifndef VERIF_SXFM_H
#define VERIF_SXFM_H
#include "model.h"
#include "vara/Feature/FeatureModelParser.h"
#include <libxml/parser.h>
#include <libxml/tree.h>
namespace vf {

struct SxfmDoc {
  Model M;
  std::string Text;
  std::vector<std::string> Lines, Cons; // as written
  std::string Indent = "\t";
};

inline std::string sxfmWrap(Rng &R, const SxfmDoc &D, bool Plain) {
  auto Coin = [&](unsigned P) { return !Plain && R.chance(P); };
  auto Gap = [&]() {
    std::string S = Coin(30) ? "\n  " : Coin(20) ? "" : "\n";
    if (Coin(8)) {
      S += "<!-- a: comment --> ";
    }
    return S;
  };
  auto Block = [&](const std::vector<std::string> &Ls) {
    std::string T;
    for (auto &L : Ls) {
      T += L + "\n";
      if (Coin(6)) {
        T += Coin(50) ? "\n" : " \t \n";
      }
    }
    if (Coin(15) && T.find("]]>") == std::string::npos && T.find('\r') == std::string::npos) {
      return "\n<![CDATA[" + T + "]]>";
    }
    std::string S = Coin(30) ? "" : "\n";
    for (char C : T) {
      S += C == '&' ? "&amp;" : C == '<' ? "&lt;" : C == '>' && !Coin(20) ? "&gt;" : std::string(1, C);
      if (C == '\n' && Coin(4)) {
        S += "<!-- : x -->";
      } else if (Coin(1) && C > ' ' && C < 127 && C != '&' && C != '<' && C != '>') {
        S.pop_back();
        S += "&#" + std::to_string(static_cast<int>(C)) + ";";
      }
    }
    if (!S.empty() && S.back() == '\n' && Coin(20)) {
      S.pop_back(); // last line without line break
    }
    return S;
  };
  std::string S;
  if (Coin(40)) {
    S += "<?xml version=\"1.0\"" + std::string(Coin(50) ? " encoding=\"UTF-8\"" : "") + "?>\n";
  }
  S += "<feature_model";
  if (!D.M.Name.empty() || Coin(50)) {
    S += " name=\"" + xmlEsc(R, D.M.Name, true, true) + "\"";
  }
  S += ">" + Gap();
  if (Coin(30)) {
    S += "<meta>";
    for (uint64_t K = R.below(3); K; --K) {
      S += "<data name=\"d" + std::to_string(K) + "\">:r any &amp; text</data>" + Gap();
    }
    S += "</meta>" + Gap();
  }
  S += "<feature_tree";
  if (D.Indent != "\t" || Coin(30)) {
    S += " indentation_string=\"" + (D.Indent.find('\t') != std::string::npos ? std::string("&#9;") : "");
    std::string E = D.Indent;
    E.erase(std::remove(E.begin(), E.end(), '\t'), E.end());
    S += xmlEsc(R, E, true, true) + "\"";
  }
  S += ">" + Block(D.Lines) + "</feature_tree>" + Gap();
  if (!D.Cons.empty() || Coin(70)) {
    S += "<constraints>" + Block(D.Cons) + "</constraints>" + Gap();
  }
  return S + "</feature_model>" + (Coin(30) ? "\n" : "");
}

// a random valid document with its model
inline SxfmDoc genSxfm(Rng &R) {
  SxfmDoc D;
  auto &M = D.M;
  M.Name = R.chance(10) ? "" : genText(R, true, false);
  for (auto &C : M.Name) {
    C = C == '\n' || C == '\t' || C == '\r' ? ' ' : C;
  }
  M.Path = "";
  size_t N = R.chance(10) ? 20 + R.below(20) : R.below(12);
  auto Names = genNames(R, N + 1);
  static const std::vector<std::string> Odd = {"foo-bar", "x<y", "\xc3\xa4\xc3\xb6", "1abc",   "-5",    "a.b.c", "or",   "p&q",
                                               "Q\"u'o",  "a|b", "_x",               "a:b",    "a=>b",  "7",     "and",  "~n",
                                               ":m",      "%d",  "r",                "m",      "o",     "g",     "!",    "x{y}"};
  if (R.chance(60)) {
    auto P = Odd;
    R.shuffle(P);
    for (size_t I = 0; I < Names.size() && I < P.size(); ++I) {
      if (R.chance(30)) {
        Names[I] = P[I];
      }
    }
  }
  std::set<std::string> Taken;
  for (auto &X : Names) {
    while (!Taken.insert(X).second) {
      X += "_";
    }
    if (X == "root" || X.rfind("group_", 0) == 0) {
      X = "r" + X;
    }
  }
  M.Root = R.chance(50) ? "root" : Names.back();
  Names.pop_back();
  // ids
  int Count = 0;
  auto Id = [&](const std::string &Own) -> std::string {
    switch (R.below(6)) {
    case 0: return "_r_" + std::to_string(++Count);
    case 1: return "id_" + std::to_string(R.below(40));
    case 2: return std::to_string(R.below(60));
    case 3: return Names.empty() ? "a" : R.pick(Names);
    case 4: return Own;
    default: return "x" + std::to_string(R.below(9));
    }
  };
  struct Node {
    std::string Name, Id;
    char Type = 'm';
    bool Alt = false, Named = true;
    std::vector<size_t> Kids;
    size_t Parent = 0;
    std::string Final;
  };
  std::vector<Node> T(1);
  T[0].Name = M.Root;
  T[0].Type = 'r';
  std::set<std::string> Ids;
  int Shape = static_cast<int>(R.below(3));
  for (size_t I = 0; I < Names.size(); ++I) {
    Node X;
    X.Name = Names[I];
    X.Parent = Shape == 0 ? R.below(T.size()) : Shape == 1 ? T.size() - 1 - R.below(std::min<size_t>(T.size(), 2)) : R.below(std::min<size_t>(T.size(), 3));
    bool InGroup = T[X.Parent].Type == 'g';
    X.Type = R.chance(20) ? 'g' : InGroup ? (R.chance(85) ? ' ' : R.chance(50) ? 'm' : 'o') : R.chance(50) ? 'm' : 'o';
    X.Alt = R.chance(50);
    T[X.Parent].Kids.push_back(T.size());
    T.push_back(X);
  }
  // groups have children
  for (auto &X : T) {
    if (X.Type == 'g' && X.Kids.empty()) {
      X.Type = T[X.Parent].Type == 'g' ? ' ' : 'm';
    } else if (X.Type == 'g') {
      X.Named = R.chance(50);
    }
  }
  for (size_t I = 0; I < T.size(); ++I) {
    if (R.chance(70)) {
      auto X = Id(T[I].Name);
      bool Ok = !X.empty() && X != "or" && X != "and";
      for (char C : X) {
        Ok = Ok && (std::isalnum(static_cast<unsigned char>(C)) || C == '_') && static_cast<unsigned char>(C) < 128;
      }
      if (Ok && Ids.insert(X).second) {
        T[I].Id = X;
      }
    }
  }
  for (auto &X : T) {
    R.shuffle(X.Kids);
  }
  static const std::vector<std::string> Inds = {"\t", "\t", "\t", "  ", " ", "    ", "-", "-->", "\t ", "..", "ab"};
  D.Indent = R.pick(Inds);
  size_t Base = R.chance(25) ? 1 + R.below(3) : 0;
  int Nameless = 0;
  std::function<void(size_t, size_t)> Write = [&](size_t I, size_t Level) {
    auto &X = T[I];
    std::string L;
    for (size_t K = 0; K < Base + Level; ++K) {
      L += D.Indent;
    }
    X.Final = X.Named ? X.Name : "group_" + std::to_string(++Nameless);
    L += ":" + std::string(X.Type == ' ' ? "" : std::string(1, X.Type)) + " " + (R.chance(6) ? "  " : "");
    std::string Card = X.Alt ? "[1,1]" : "[1,*]";
    std::string IdT = X.Id.empty() ? "" : (R.chance(40) ? " (" : "(") + X.Id + ")";
    if (X.Type != 'g') {
      L += X.Name + IdT;
    } else if (!X.Named) {
      if (X.Id.empty()) {
        L += Card;
      } else {
        L += R.chance(50) ? Card + " (" + X.Id + ")" : "(" + X.Id + ") " + Card;
      }
    } else if (R.chance(60)) {
      L += Card + " " + X.Name + IdT;
    } else {
      L += X.Name + IdT + (R.chance(50) ? " " : "") + Card;
    }
    L += R.chance(5) ? "  " : "";
    D.Lines.push_back(L);
    MFeat F;
    F.Name = X.Final;
    F.Kind = X.Type == 'r' ? 'r' : 'b';
    F.Opt = X.Type == 'o';
    if (I != 0) {
      F.Parent = T[X.Parent].Final;
    }
    int G = -1;
    if (X.Type == 'g') {
      G = static_cast<int>(M.G.size());
      M.G.push_back({X.Alt, X.Final});
    }
    M.F[F.Name] = F;
    for (auto K : X.Kids) {
      Write(K, Level + 1);
      if (G >= 0) {
        M.F[T[K].Final].Group = G;
      }
    }
  };
  Write(0, 0);
  // constraints
  std::vector<std::pair<std::string, std::string>> Tok; // spelled, feature
  for (auto &X : T) {
    if (!X.Id.empty()) {
      Tok.push_back({X.Id, X.Final});
    }
    if (isIdent(X.Final) && !Ids.count(X.Final) && X.Final != "or" && X.Final != "and") {
      Tok.push_back({X.Final, X.Final});
    }
  }
  auto Sp = [&]() { return std::string(R.chance(15) ? "  " : " "); };
  if (!Tok.empty()) {
    for (size_t K = R.below(5); K; --K) {
      std::string F;
      E X;
      size_t Clauses = R.chance(20) ? 2 + R.below(2) : 1;
      for (size_t C = 0; C < Clauses; ++C) {
        E Cl;
        std::string Ct;
        for (size_t L = 1 + R.below(4); L; --L) {
          auto &P = R.pick(Tok);
          E Lit = feat(P.second);
          std::string Lt = P.first;
          for (uint64_t Ns = R.chance(50) ? 1 + R.below(8) / 7 : 0; Ns; --Ns) {
            Lit = un(Op::Not, Lit);
            Lt = std::string(R.chance(85) ? "~" : "!") + (R.chance(10) ? " " : "") + Lt;
          }
          if (R.chance(5)) {
            Lt = "(" + Lt + ")";
          }
          Ct += (Cl ? Sp() + (R.chance(90) ? "or" : "|") + Sp() : "") + Lt;
          Cl = Cl ? bin(Op::Or, Cl, Lit) : Lit;
        }
        bool Par = Clauses > 1 || R.chance(10);
        Ct = Par ? "(" + Ct + ")" : Ct;
        F += (X ? Sp() + (R.chance(90) ? "and" : "&") + Sp() : "") + Ct;
        X = X ? bin(Op::And, X, Cl) : Cl;
      }
      static const std::vector<std::string> Lb = {"c1", "Constraint_1", "", "a b", "id_1", "~", "c (1)"};
      D.Cons.push_back((R.chance(20) ? "  " : "") + R.pick(Lb) + (R.chance(20) ? " " : "") + ":" + (R.chance(50) ? " " : "") + F +
                       (R.chance(10) ? " " : ""));
      M.B.push_back({X, 0});
    }
  }
  D.Text = sxfmWrap(R, D, R.chance(30));
  return D;
}

enum class Verdict { Refuse, Load, Unsure };

// the strict reader: decides where the format decides
inline Verdict readSxfm(const std::string &Text, Model &M, std::string &Why) {
  auto Say = [&](Verdict V, const std::string &W) {
    Why = W;
    return V;
  };
  struct Doc {
    xmlDocPtr D;
    ~Doc() {
      if (D) {
        xmlFreeDoc(D);
      }
    }
  } X{xmlReadMemory(Text.data(), static_cast<int>(Text.size()), nullptr, nullptr,
                    XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET)};
  if (!X.D) {
    return Say(Verdict::Refuse, "not well-formed");
  }
  if (X.D->intSubset || X.D->extSubset) {
    return Say(Verdict::Unsure, "document type");
  }
  if (Text.find('\0') != std::string::npos) {
    return Say(Verdict::Unsure, "null byte");
  }
  auto Nm = [](xmlNodePtr N) { return std::string(reinterpret_cast<const char *>(N->name)); };
  // structure
  Verdict Bad = Verdict::Load;
  auto Elements = [&](xmlNodePtr N) {
    std::vector<xmlNodePtr> V;
    for (auto *H = N->children; H; H = H->next) {
      if (H->type == XML_ELEMENT_NODE) {
        V.push_back(H);
      } else if (H->type == XML_TEXT_NODE) {
        for (auto *P = H->content; P && *P; ++P) {
          if (*P != ' ' && *P != '\t' && *P != '\n' && *P != '\r') {
            Bad = Verdict::Refuse;
          }
        }
      } else if (H->type != XML_COMMENT_NODE) {
        Bad = Bad == Verdict::Refuse ? Bad : Verdict::Unsure;
      }
    }
    return V;
  };
  auto Attrs = [&](xmlNodePtr N, const char *Known, bool Needed) {
    bool Has = false;
    for (auto *A = N->properties; A; A = A->next) {
      if (Known && !std::strcmp(reinterpret_cast<const char *>(A->name), Known) && !A->ns) {
        Has = true;
      } else {
        Bad = A->ns ? (Bad == Verdict::Refuse ? Bad : Verdict::Unsure) : Verdict::Refuse;
      }
    }
    if (N->ns || N->nsDef) {
      Bad = Bad == Verdict::Refuse ? Bad : Verdict::Unsure;
    }
    if (Needed && !Has) {
      Bad = Verdict::Refuse;
    }
  };
  auto Leaf = [&](xmlNodePtr N) {
    std::string S;
    for (auto *H = N->children; H; H = H->next) {
      if (H->type == XML_ELEMENT_NODE) {
        Bad = Verdict::Refuse;
      } else if (H->type == XML_TEXT_NODE || H->type == XML_CDATA_SECTION_NODE) {
        S += reinterpret_cast<const char *>(H->content ? H->content : BAD_CAST "");
      } else if (H->type != XML_COMMENT_NODE) {
        Bad = Bad == Verdict::Refuse ? Bad : Verdict::Unsure;
      }
    }
    return S;
  };
  auto *Root = xmlDocGetRootElement(X.D);
  if (Nm(Root) != "feature_model") {
    return Say(Verdict::Refuse, "outermost element");
  }
  Attrs(Root, "name", false);
  auto Prop = [](xmlNodePtr N, const char *A) -> std::optional<std::string> {
    auto *P = xmlGetProp(N, reinterpret_cast<const xmlChar *>(A));
    if (!P) {
      return std::nullopt;
    }
    std::string S = reinterpret_cast<char *>(P);
    xmlFree(P);
    return S;
  };
  M = Model{};
  M.Name = Prop(Root, "name").value_or("");
  auto Es = Elements(Root);
  std::string Order;
  std::string Tree, Cons, Indent = "\t";
  for (auto *N : Es) {
    auto K = Nm(N);
    Order += K + " ";
    if (K == "meta") {
      Attrs(N, nullptr, false);
      for (auto *D : Elements(N)) {
        if (Nm(D) != "data") {
          Bad = Verdict::Refuse;
        }
        Attrs(D, "name", true);
        Leaf(D);
      }
    } else if (K == "feature_tree") {
      Attrs(N, "indentation_string", false);
      Indent = Prop(N, "indentation_string").value_or("\t");
      Tree = Leaf(N);
    } else if (K == "constraints") {
      Attrs(N, nullptr, false);
      Cons = Leaf(N);
    }
  }
  static const std::set<std::string> Orders = {"feature_tree ", "meta feature_tree ", "feature_tree constraints ",
                                               "meta feature_tree constraints "};
  if (!Orders.count(Order)) {
    return Say(Verdict::Refuse, "structure " + Order);
  }
  if (Bad != Verdict::Load) {
    return Say(Bad, "grammar");
  }
  // tree
  bool Unsure = false;
  auto Lines = [](const std::string &T) {
    std::vector<std::string> V;
    std::stringstream Ss(T);
    std::string L;
    while (std::getline(Ss, L)) {
      if (L.find_first_not_of(" \t\n\v\f\r") != std::string::npos) {
        V.push_back(L);
      }
    }
    return V;
  };
  std::map<std::string, std::string> Ids;
  std::vector<std::string> Path; // names from the root down to the last line
  std::map<std::string, int> GroupOf;
  size_t Base = 0;
  int Nameless = 0;
  bool First = true;
  std::map<std::string, MFeat> F;
  std::set<std::string> Seen;
  M.Root = "root";
  for (auto &L : Lines(Tree)) {
    auto At = L.find(':');
    if (At == std::string::npos) {
      return Say(Verdict::Refuse, "no colon: " + L);
    }
    size_t Level = 0, I = 0;
    while (!Indent.empty() && I + Indent.size() <= At && L.compare(I, Indent.size(), Indent) == 0) {
      ++Level;
      I += Indent.size();
    }
    if (I != At) {
      return Say(Verdict::Refuse, "indentation: " + L);
    }
    if (At + 1 >= L.size()) {
      return Say(Verdict::Refuse, "no type: " + L);
    }
    char Ty = L[At + 1];
    if (std::string("rmog ").find(Ty) == std::string::npos) {
      return Say(Verdict::Refuse, "type: " + L);
    }
    size_t P = At + 2;
    if (Ty != ' ') {
      if (P < L.size() && L[P] != ' ') {
        return Say(Verdict::Refuse, "type: " + L);
      }
    }
    if (First) {
      Base = Level;
      Unsure = Unsure || Ty != 'r';
    } else {
      if (Level <= Base) {
        return Say(Verdict::Refuse, "second line at the root's level or above: " + L);
      }
      if (Level - Base > Path.size()) {
        return Say(Verdict::Refuse, "jump: " + L);
      }
      if (Ty == 'r') {
        return Say(Verdict::Refuse, "second root: " + L);
      }
    }
    std::string Rest = L.substr(std::min(P, L.size()));
    while (!Rest.empty() && Rest[0] == ' ') {
      Rest.erase(0, 1);
    }
    while (!Rest.empty() && Rest.back() == ' ') {
      Rest.pop_back();
    }
    // name, id, cardinality
    bool Alt = false;
    if (Ty == 'g') {
      auto O = L.find('['), Cm = O == std::string::npos ? O : L.find(',', O), E = Cm == std::string::npos ? Cm : L.find(']', Cm);
      if (O == std::string::npos) {
        return Say(Verdict::Refuse, "no cardinality: " + L);
      }
      if (E == std::string::npos) {
        return Say(Verdict::Unsure, "cardinality");
      }
      auto A = L.substr(O + 1, Cm - O - 1), B = L.substr(Cm + 1, E - Cm - 1);
      if (A != "1" || (B != "1" && B != "*")) {
        auto Num = [](const std::string &S) {
          return !S.empty() && S.size() < 9 && S.find_first_not_of("0123456789") == std::string::npos && (S[0] != '0' || S == "0");
        };
        if ((Num(A) || A == "*") && (Num(B) || B == "*")) {
          return Say(Verdict::Refuse, "cardinality: " + L);
        }
        return Say(Verdict::Unsure, "cardinality");
      }
      Alt = B == "1";
      // the cardinality may precede or follow
      auto Card = L.substr(O, E - O + 1);
      auto Q = Rest.find(Card);
      if (Rest.find('[', Q + 1) != std::string::npos) {
        Unsure = true;
      }
      if (Q == 0) {
        Rest = Rest.substr(Card.size());
        Unsure = Unsure || (!Rest.empty() && (Rest[0] != ' ' || Rest.size() < 2 || Rest[1] == ' '));
        Rest = Rest.empty() ? Rest : Rest.substr(1);
      } else if (Q + Card.size() == Rest.size()) {
        Rest = Rest.substr(0, Q);
        while (!Rest.empty() && Rest.back() == ' ') {
          Rest.pop_back();
        }
      } else {
        Unsure = true;
      }
    }
    std::string Id;
    auto Pr = Rest.find('(');
    if (Pr != std::string::npos) {
      Id = Rest.substr(Pr);
      if (Id.size() < 3 || Id.back() != ')') {
        Unsure = true;
      } else {
        Id = Id.substr(1, Id.size() - 2);
        for (unsigned char C : Id) {
          Unsure = Unsure || !(C < 128 && (std::isalnum(C) || C == '_'));
        }
      }
      Unsure = Unsure || Id == "or" || Id == "and";
      Rest = Rest.substr(0, Pr);
      while (!Rest.empty() && Rest.back() == ' ') {
        Rest.pop_back();
      }
    }
    std::string Name = Rest;
    if (Name.find_first_of(" ()[]\t\r\v\f") != std::string::npos) {
      Unsure = true;
    }
    if (Name.empty()) {
      Unsure = Unsure || Ty != 'g';
      Name = "group_" + std::to_string(++Nameless);
    }
    if (!Id.empty()) {
      Unsure = Unsure || Ids.count(Id);
      Ids[Id] = Name;
    }
    if (!Unsure && !Seen.insert(Name).second) {
      return Say(Verdict::Refuse, "name twice: " + Name);
    }
    MFeat X;
    X.Name = Name;
    X.Kind = First ? 'r' : 'b';
    X.Opt = Ty == 'o';
    if (First) {
      M.Root = Name;
    } else {
      Path.resize(Level - Base);
      X.Parent = Path.back();
      auto G = GroupOf.find(X.Parent);
      if (G != GroupOf.end()) {
        X.Group = G->second;
      }
    }
    Path.push_back(Name);
    if (Ty == 'g') {
      GroupOf[Name] = static_cast<int>(M.G.size());
      M.G.push_back({Alt, Name});
    }
    M.F[Name] = X;
    First = false;
  }
  if (First) {
    MFeat X;
    X.Name = "root";
    X.Kind = 'r';
    M.F["root"] = X;
  }
  // constraints
  for (auto &L : Lines(Cons)) {
    auto At = L.find(':');
    if (At == std::string::npos) {
      return Say(Verdict::Refuse, "no colon: " + L);
    }
    std::string T, F = L.substr(At + 1);
    std::map<std::string, std::string> To;
    for (size_t I = 0; I < F.size();) {
      size_t J = I;
      while (J < F.size() && static_cast<unsigned char>(F[J]) < 128 && (std::isalnum(static_cast<unsigned char>(F[J])) || F[J] == '_')) {
        ++J;
      }
      if (J == I) {
        T += F[I] == '~' ? '!' : F[I];
        ++I;
        continue;
      }
      auto W = F.substr(I, J - I);
      bool Mapped = Ids.count(W) != 0;
      if (Mapped || (std::isalpha(static_cast<unsigned char>(W[0])) && W != "or" && W != "and")) {
        auto K = "v" + std::to_string(To.size());
        To[K] = Mapped ? Ids[W] : W;
        T += K;
      } else if (W == "and") {
        T += " & ";
        Unsure = Unsure || I == 0 || J >= F.size() || F[I - 1] != ' ' || F[J] != ' ';
      } else {
        T += W;
      }
      I = J;
    }
    if (F.find_first_of("\v\f") != std::string::npos) {
      Unsure = true;
    }
    for (unsigned char C : F) {
      Unsure = Unsure || C == 0xff;
    }
    bool Exact = true;
    auto X = RefParser::parse(T, Exact);
    if (!X) {
      if (!Unsure) {
        return Say(Verdict::Refuse, "constraint: " + L);
      }
      continue;
    }
    Unsure = Unsure || !Exact;
    std::function<E(const E &)> Map = [&](const E &Y) -> E {
      if (!Y) {
        return Y;
      }
      if (Y->O == Op::Feat) {
        return feat(To.count(Y->Name) ? To[Y->Name] : Y->Name);
      }
      auto Z = std::make_shared<Expr>(*Y);
      Z->L = Map(Y->L);
      Z->R = Map(Y->R);
      return Z;
    };
    X = Map(X);
    std::set<std::string> Fs;
    feats(X, Fs);
    for (auto &K : Fs) {
      if (!M.F.count(K)) {
        if (!Unsure) {
          return Say(Verdict::Refuse, "unknown feature " + K + ": " + L);
        }
      }
    }
    M.B.push_back({X, 0});
  }
  // a group without children is none
  std::set<int> Used;
  for (auto &[K, X] : M.F) {
    Used.insert(X.Group);
  }
  for (size_t G = 0; G < M.G.size(); ++G) {
    Unsure = Unsure || !Used.count(static_cast<int>(G));
  }
  return Say(Unsure ? Verdict::Unsure : Verdict::Load, "");
}
} // namespace vf
#endif
