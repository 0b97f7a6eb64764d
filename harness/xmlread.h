// An own reader of XML feature models, written from the format's description:
// decides whether a text conforms to the grammar and which model it describes.
#ifndef VERIF_XMLREAD_H
#define VERIF_XMLREAD_H
#include "model.h"
#include "step.h"
#include <filesystem>
#include <libxml/parser.h>
#include <libxml/tree.h>
namespace vf {

struct XmlVerdict {
  enum class Ans { No, Yes, Open };
  Ans Valid = Ans::Yes; // conforms to the grammar
  Ans Loads = Ans::Yes; // describes a model
  bool Content = true;  // M is decided, too
  std::string Why;
  Model M;
};

class XmlReader {
public:
  using Ans = XmlVerdict::Ans;
  XmlVerdict V;

  void read(const std::string &Text) {
    if (Text.empty()) {
      return invalid("not well-formed: empty");
    }
    auto *Ctxt = xmlNewParserCtxt();
    D = xmlCtxtReadMemory(Ctxt, Text.data(), static_cast<int>(Text.size()), nullptr, nullptr,
                          XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET);
    // without the document type at hand nobody knows whether an entity that
    // is not declared is an error
    bool Undeclared = !Ctxt->valid;
    xmlFreeParserCtxt(Ctxt);
    if (Text.find('\0') != std::string::npos) {
      return open("null byte");
    }
    if (!D) {
      return invalid("not well-formed");
    }
    if (Undeclared) {
      return open("entity");
    }
    if (D->extSubset || (D->intSubset && (D->intSubset->children || std::string("vm") != str(D->intSubset->name)))) {
      return open("document type");
    }
    if (D->encoding && std::string("UTF-8") != str(D->encoding) && std::string("utf-8") != str(D->encoding)) {
      return open("encoding");
    }
    auto *R = xmlDocGetRootElement(D);
    if (str(R->name) != "vm") {
      invalid("outermost element");
    }
    element(R);
    if (V.Valid == Ans::Yes) {
      model(R);
    } else if (V.Valid == Ans::No) {
      V.Loads = Ans::No;
    } else {
      V.Loads = Ans::Open;
    }
  }
  ~XmlReader() {
    if (D) {
      xmlFreeDoc(D);
    }
  }

private:
  xmlDocPtr D = nullptr;
  int Roots = 0;
  static std::string str(const xmlChar *S) { return S ? reinterpret_cast<const char *>(S) : ""; }
  static bool blank(const std::string &S) { return S.find_first_not_of(" \t\r\n") == std::string::npos; }
  static std::string trimmed(const std::string &S) {
    auto A = S.find_first_not_of(" \t\r\n");
    return A == std::string::npos ? "" : S.substr(A, S.find_last_not_of(" \t\r\n") - A + 1);
  }
  void invalid(const std::string &W) {
    if (V.Valid != Ans::No) {
      V.Why = W;
    }
    V.Valid = V.Loads = Ans::No;
  }
  void open(const std::string &W) {
    if (V.Valid == Ans::Yes) {
      V.Valid = V.Loads = Ans::Open;
      V.Why = W;
    }
  }
  void refuse(const std::string &W) {
    if (V.Loads != Ans::No) {
      V.Why = W;
    }
    V.Loads = Ans::No;
  }

  //--- grammar
  // element content as sequence of names
  static bool isLeaf(const std::string &N) {
    static const std::set<std::string> L = {
        "constraint", "name",     "outputString", "prefix",       "preFix",     "postfix", "postFix", "parent",
        "defaultValue", "options", "optional",    "minValue",     "maxValue",   "values",  "stepFunction",
        "introduced", "removed",  "path",         "line",         "column",     "memberOffset"};
    return L.count(N) != 0;
  }
  static bool listOf(const std::vector<std::string> &C, const char *N) {
    return std::all_of(C.begin(), C.end(), [N](auto &X) { return X == N; });
  }
  static bool content(const std::string &N, const std::vector<std::string> &C) {
    size_t I = 0;
    auto Opt = [&](const char *X) { return I < C.size() && C[I] == X && ++I; };
    auto Is = [&](const char *X) { return I < C.size() && C[I] == X && ++I; };
    if (N == "vm") {
      if (!Is("binaryOptions")) {
        return false;
      }
      Opt("numericOptions");
      Opt("booleanConstraints");
      Opt("nonBooleanConstraints");
      Opt("mixedConstraints");
      return I == C.size();
    }
    if (N == "binaryOptions" || N == "numericOptions") {
      return listOf(C, "configurationOption");
    }
    if (N == "booleanConstraints" || N == "nonBooleanConstraints" || N == "mixedConstraints") {
      return listOf(C, "constraint");
    }
    if (N == "children" || N == "impliedOptions" || N == "excludedOptions") {
      return listOf(C, "options");
    }
    if (N == "locations") {
      return listOf(C, "sourceRange");
    }
    if (N == "configurationOption") {
      if (!Is("name")) {
        return false;
      }
      Opt("outputString");
      Opt("prefix") || Opt("preFix");
      Opt("postfix") || Opt("postFix");
      Opt("parent");
      Opt("children");
      Opt("impliedOptions");
      Opt("excludedOptions");
      Opt("defaultValue");
      Opt("optional");
      if (Opt("minValue")) {
        if (!Is("maxValue")) {
          return false;
        }
      } else {
        Opt("values");
      }
      Opt("stepFunction");
      Opt("locations");
      return I == C.size();
    }
    if (N == "sourceRange") {
      Opt("revisionRange");
      if (!Is("path") || !Is("start") || !Is("end")) {
        return false;
      }
      Opt("memberOffset");
      return I == C.size();
    }
    if (N == "revisionRange") {
      if (!Is("introduced")) {
        return false;
      }
      Opt("removed");
      return I == C.size();
    }
    if (N == "start" || N == "end") {
      return Is("line") && Is("column") && I == C.size();
    }
    return false;
  }
  void attributes(xmlNodePtr E, const std::string &N) {
    bool HasName = false;
    for (auto *A = E->properties; A; A = A->next) {
      auto K = str(A->name);
      if (A->ns) {
        open("namespace");
        continue;
      }
      std::string Val;
      for (auto *T = A->children; T; T = T->next) {
        if (T->type != XML_TEXT_NODE) {
          open("entity");
        } else {
          Val += str(T->content);
        }
      }
      if (N == "vm" && (K == "name" || K == "root" || K == "commit")) {
        HasName = HasName || K == "name";
      } else if (N == "constraint" && (K == "req" || K == "exprKind")) {
      } else if (N == "sourceRange" && K == "category") {
        if (Val != "necessary" && Val != "inessential") {
          if (trimmed(Val) == "necessary" || trimmed(Val) == "inessential") {
            open("category");
          } else {
            invalid("category");
          }
        }
      } else {
        invalid("attribute");
      }
    }
    if (N == "vm" && !HasName) {
      invalid("no name");
    }
    if (E->ns || E->nsDef) {
      open("namespace");
    }
  }
  void element(xmlNodePtr E) {
    auto N = str(E->name);
    attributes(E, N);
    std::vector<std::string> C;
    bool Leaf = isLeaf(N);
    for (auto *H = E->children; H; H = H->next) {
      switch (H->type) {
      case XML_ELEMENT_NODE:
        if (Leaf) {
          invalid("element in text");
        }
        C.push_back(str(H->name));
        element(H);
        break;
      case XML_TEXT_NODE:
        if (!Leaf && !blank(str(H->content))) {
          invalid("text between elements");
        }
        break;
      case XML_CDATA_SECTION_NODE:
        if (!Leaf) {
          invalid("text between elements");
        }
        break;
      case XML_COMMENT_NODE:
      case XML_PI_NODE:
        break;
      default:
        open("entity");
      }
    }
    if (!Leaf && !content(N, C)) {
      invalid("content");
    }
  }

  //--- meaning
  std::string textOf(xmlNodePtr E, bool Exact = false) {
    std::string S;
    int N = 0;
    bool Blank = false;
    for (auto *H = E->children; H; H = H->next, ++N) {
      if (H->type == XML_TEXT_NODE || H->type == XML_CDATA_SECTION_NODE) {
        S += str(H->content);
        Blank = Blank || (H->type == XML_TEXT_NODE && blank(str(H->content)));
      }
    }
    if (N > 1 && Blank && (Exact || !blank(S))) {
      V.Content = false; // blank pieces between comments may be dropped
      Pieces = true;
    }
    return S;
  }
  bool Pieces = false;
  static std::vector<xmlNodePtr> kids(xmlNodePtr E) {
    std::vector<xmlNodePtr> R;
    for (auto *H = E->children; H; H = H->next) {
      if (H->type == XML_ELEMENT_NODE) {
        R.push_back(H);
      }
    }
    return R;
  }
  std::string deepText(xmlNodePtr E) {
    std::string S;
    for (auto *H = E->children; H; H = H->next) {
      S += H->type == XML_ELEMENT_NODE                                       ? deepText(H)
           : H->type == XML_TEXT_NODE || H->type == XML_CDATA_SECTION_NODE ? str(H->content)
                                                                             : "";
    }
    return S;
  }
  std::optional<std::string> attr(xmlNodePtr E, const char *K) {
    for (auto *A = E->properties; A; A = A->next) {
      if (str(A->name) == K) {
        return str(A->children ? A->children->content : nullptr);
      }
    }
    return std::nullopt;
  }
  std::optional<int64_t> integer(const std::string &T) {
    size_t I = T[0] == '-';
    if (I >= T.size() || T.find_first_not_of("0123456789", I) != std::string::npos) {
      return std::nullopt;
    }
    __int128 X = 0;
    for (; I < T.size(); ++I) {
      X = std::min<__int128>(X * 10 + (T[I] - '0'), static_cast<__int128>(1) << 64);
    }
    X = T[0] == '-' ? -X : X;
    return static_cast<int64_t>(std::max<__int128>(INT64_MIN, std::min<__int128>(INT64_MAX, X)));
  }
  unsigned position(xmlNodePtr E) {
    auto T = trimmed(textOf(E));
    if (T.empty() || T.size() > 9 || T.find_first_not_of("0123456789") != std::string::npos) {
      V.Content = false;
      return 0;
    }
    return static_cast<unsigned>(std::stoul(T));
  }
  MLoc location(xmlNodePtr E) {
    MLoc L;
    L.Iness = attr(E, "category").value_or("") == "inessential";
    for (auto *H : kids(E)) {
      auto N = str(H->name);
      if (N == "path") {
        L.Path = trimmed(textOf(H));
      } else if (N == "start" || N == "end") {
        auto C = kids(H);
        (N == "start" ? L.S : L.E) = {position(C[0]), position(C[1])};
      } else if (N == "memberOffset") {
        auto T = trimmed(textOf(H));
        bool Plain = T.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_:") == std::string::npos;
        if (T.find(':') == std::string::npos) {
          // not a member
        } else if (Plain && T.find(":::") == std::string::npos && T.size() > 2 && T.back() != ':') {
          bool Single = false;
          for (size_t I = 0; I < T.size(); ++I) {
            Single = Single || (T[I] == ':' && T[I + 1] != ':' && (I == 0 || T[I - 1] != ':'));
          }
          V.Content = V.Content && !Single;
          L.Member = T;
        } else {
          V.Content = false;
        }
      } else if (N == "revisionRange") {
        auto C = kids(H);
        L.Rev = MRev{trimmed(textOf(C[0])), std::nullopt};
        if (C.size() > 1 && !trimmed(textOf(C[1])).empty()) {
          L.Rev->Removed = trimmed(textOf(C[1]));
        }
      }
    }
    return L;
  }
  std::map<std::string, std::string> Parent;
  void edge(const std::string &P, const std::string &C) {
    auto It = Parent.find(C);
    if (It != Parent.end() && It->second != P) {
      refuse("two parents: " + C);
    }
    Parent[C] = P;
  }
  void constraint(E X, int Kind, bool All = true, bool Neg = false) {
    MCons C;
    C.X = X;
    C.Kind = Kind;
    C.All = All;
    C.Neg = Neg;
    (Kind == 0 ? V.M.B : Kind == 1 ? V.M.N : V.M.M).push_back(C);
  }
  void option(xmlNodePtr E, bool Num) {
    MFeat X;
    X.Name = "root";
    X.Kind = Num ? 'n' : 'b';
    for (auto *H : kids(E)) {
      auto N = str(H->name);
      bool Leaf = isLeaf(N);
      auto Raw = Leaf ? textOf(H, N == "outputString") : deepText(H);
      auto T = trimmed(Raw);
      if (T.empty()) {
        continue;
      }
      if (N == "name") {
        X.Name = T;
      } else if (N == "outputString") {
        X.Out = Raw.substr(Raw.find_first_not_of(" \t\r\n"));
      } else if (N == "optional") {
        X.Opt = T == "True";
      } else if (N == "parent") {
        edge(T, X.Name);
      } else if (N == "children" || N == "impliedOptions" || N == "excludedOptions") {
        for (auto *O : kids(H)) {
          auto To = trimmed(textOf(O));
          if (N == "children") {
            edge(X.Name, To);
          } else {
            constraint(bin(N == "impliedOptions" ? Op::Imp : Op::Excl, feat(X.Name), feat(To)), 0);
          }
        }
      } else if (N == "locations") {
        for (auto *O : kids(H)) {
          X.Locs.push_back(location(O));
        }
      } else if (Num && (N == "minValue" || N == "maxValue")) {
        auto I = integer(T);
        V.Content = V.Content && I;
        (N == "minValue" ? X.Lo : X.Hi) = I.value_or(0);
      } else if (Num && N == "values") {
        for (size_t I = 0; I < T.size();) {
          size_t J = I + (T[I] == '-');
          while (J < T.size() && T[J] >= '0' && T[J] <= '9') {
            ++J;
          }
          if (J > I + (T[I] == '-')) {
            X.Vals.push_back(*integer(T.substr(I, J - I)));
            X.IsRange = false;
            I = J;
          } else {
            ++I;
          }
        }
      } else if (Num && N == "stepFunction") {
        if (auto F = readStep(T)) {
          X.StepSig = stepSig([&](double Y) { return stepValue(*F, Y); });
        }
      }
    }
    if (!X.IsRange) {
      X.Lo = X.Hi = 0;
    }
    if (X.Name == "root" || X.Name == "base") {
      Roots += 1;
      V.M.Root = X.Name;
      return;
    }
    if (!V.M.F.emplace(X.Name, X).second) {
      refuse("feature twice: " + X.Name);
    }
  }
  void constraints(xmlNodePtr E, int Kind) {
    for (auto *H : kids(E)) {
      bool Exact = true;
      auto T = textOf(H);
      for (unsigned char C : T) {
        Exact = Exact && C != 0xff;
      }
      auto X = RefParser::parse(T, Exact);
      if (!X) {
        refuse("constraint: " + T);
        continue;
      }
      V.Content = V.Content && Exact;
      constraint(X, Kind, Kind != 2 || attr(H, "req").value_or("") != "none", Kind == 2 && attr(H, "exprKind").value_or("") == "neg");
    }
  }
  void model(xmlNodePtr Vm) {
    auto &M = V.M;
    M = Model{};
    M.Name = trimmed(*attr(Vm, "name"));
    auto P = attr(Vm, "root");
    M.Path = P ? trimmed(*P) : std::filesystem::current_path().string();
    M.Commit = trimmed(attr(Vm, "commit").value_or(""));
    for (auto *H : kids(Vm)) {
      auto N = str(H->name);
      if (N == "binaryOptions" || N == "numericOptions") {
        for (auto *O : kids(H)) {
          option(O, N == "numericOptions");
        }
      } else {
        constraints(H, N == "booleanConstraints" ? 0 : N == "nonBooleanConstraints" ? 1 : 2);
      }
    }
    MFeat R;
    R.Name = M.Root;
    R.Kind = 'r';
    M.F[M.Root] = R;
    for (auto &[C, Pa] : Parent) {
      if (!M.F.count(C) || !M.F.count(Pa)) {
        refuse("edge to a missing feature");
      } else if (C == M.Root) {
        refuse("root with a parent");
      } else {
        M.F[C].Parent = Pa;
      }
    }
    for (auto &[N, X] : M.F) {
      if (N != M.Root && X.Parent.empty()) {
        X.Parent = M.Root;
      }
    }
    for (auto *L : {&M.B, &M.N, &M.M}) {
      for (auto &C : *L) {
        std::set<std::string> Fs;
        feats(C.X, Fs);
        for (auto &F : Fs) {
          if (!M.F.count(F)) {
            refuse("constraint with a missing feature");
          }
        }
      }
    }
    if (V.Loads == Ans::Yes) {
      for (auto &[N, X] : M.F) {
        std::set<std::string> Seen;
        for (auto A = N; A != M.Root; A = M.F[A].Parent) {
          if (!Seen.insert(A).second) {
            return refuse("cycle");
          }
        }
      }
      detectAlternatives(M);
    }
    if (Pieces && V.Loads != Ans::Open) {
      V.Loads = Ans::Open;
      V.Why = "pieces";
    }
    if (Roots > 1) { // which of them counts is nowhere said
      V.Loads = Ans::Open;
      V.Why = "two roots";
    }
  }
};

inline XmlVerdict readXml(const std::string &T) {
  XmlReader R;
  R.read(T);
  return R.V;
}

} // namespace vf
#endif
