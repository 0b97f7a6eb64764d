// C02: malformed or contradictory XML is refused cleanly, never half-loaded.
#include "vara/Feature/FeatureModelParser.h"
#include "xmlread.h"
#include <fstream>
using namespace vf;

namespace {
using Ans = XmlVerdict::Ans;

void judge(Ctx &C, const std::string &T, bool File = false) {
  C.say(T);
  auto W = readXml(T);
  bool Ok;
  std::unique_ptr<FM> L;
  if (File) {
    std::string P = "c02-" + std::to_string(gettid()) + ".xml";
    {
      std::ofstream O(P, std::ios::binary);
      O << T;
    }
    Ok = vfe::verifyFeatureModel(P);
    L = vfe::loadFeatureModel(P);
    ::unlink(P.c_str());
    C.note("from_file");
  } else {
    vfe::FeatureModelXmlParser V(T);
    Ok = static_cast<bool>(V.verifyFeatureModel());
    L = C.R.chance(50) ? V.buildFeatureModel() : vfe::FeatureModelXmlParser(T).buildFeatureModel();
  }
  C.check(Ok || !L, "unverified", "loaded although it does not verify");
  auto Cat = W.Why.substr(0, W.Why.find(':'));
  C.note((W.Loads == Ans::No ? W.Valid == Ans::No ? "invalid_" : "contradiction_" : W.Loads == Ans::Open ? "open_" : "valid_") + Cat);
  if (W.Valid != Ans::Open) {
    C.eq(Ok, W.Valid == Ans::Yes, "verify", "verification verdict (" + W.Why + ")");
  }
  if (W.Loads == Ans::No) {
    C.check(!L, "accepts", "loaded although to be refused: " + W.Why);
  }
  if (W.Loads == Ans::Yes) {
    C.check(L != nullptr, "refuses", "valid document refused");
  }
  if (L) {
    auto Got = sound(C, *L, "loaded model");
    C.note("loaded");
    if (W.Loads == Ans::Yes && W.Content) {
      C.note("content_compared");
      sameModel(C, Got, W.M, "content", "loaded model differs from the described one");
    }
  }
}

struct Dom {
  xmlDocPtr D;
  explicit Dom(const std::string &T)
      : D(xmlReadMemory(T.data(), static_cast<int>(T.size()), nullptr, nullptr,
                        XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET | XML_PARSE_NOCDATA)) {}
  ~Dom() { xmlFreeDoc(D); }
  static std::string nm(xmlNodePtr N) { return reinterpret_cast<const char *>(N->name); }
  void walk(xmlNodePtr N, std::vector<xmlNodePtr> &Out, const std::string &Only = "") {
    for (; N; N = N->next) {
      if (N->type == XML_ELEMENT_NODE && (Only.empty() || nm(N) == Only)) {
        Out.push_back(N);
      }
      if (N->type == XML_ELEMENT_NODE) {
        walk(N->children, Out, Only);
      }
    }
  }
  std::vector<xmlNodePtr> all(const std::string &Only = "") {
    std::vector<xmlNodePtr> V;
    walk(D->children, V, Only);
    return V;
  }
  std::string text() {
    xmlChar *B = nullptr;
    int N = 0;
    xmlDocDumpMemoryEnc(D, &B, &N, "UTF-8");
    std::string S(reinterpret_cast<char *>(B), static_cast<size_t>(N));
    xmlFree(B);
    return S;
  }
};
const xmlChar *x(const std::string &S) { return reinterpret_cast<const xmlChar *>(S.c_str()); }
void setText(xmlNodePtr N, const std::string &S) {
  xmlNodeSetContent(N, nullptr);
  xmlNodeAddContent(N, x(S));
}

const std::vector<std::string> &elementNames() {
  static const std::vector<std::string> V = {
      "vm", "binaryOptions", "numericOptions", "booleanConstraints", "nonBooleanConstraints", "mixedConstraints",
      "configurationOption", "constraint", "name", "outputString", "prefix", "preFix", "postfix", "postFix", "parent", "children",
      "impliedOptions", "excludedOptions", "defaultValue", "options", "optional", "minValue", "maxValue", "values", "stepFunction",
      "locations", "sourceRange", "revisionRange", "introduced", "removed", "path", "start", "end", "line", "column",
      "memberOffset", "unknown"};
  return V;
}
// the child of an option in its place
xmlNodePtr part(xmlNodePtr Option, const std::string &N) {
  static const std::vector<std::string> Order = {
      "name",  "outputString",    "prefix",       "preFix",   "postfix",  "postFix", "parent", "children", "impliedOptions",
      "excludedOptions", "defaultValue", "optional", "minValue", "maxValue", "values",  "stepFunction", "locations"};
  auto Rank = [&](const std::string &S) { return std::find(Order.begin(), Order.end(), S) - Order.begin(); };
  xmlNodePtr After = nullptr;
  for (auto *H = Option->children; H; H = H->next) {
    if (H->type != XML_ELEMENT_NODE) {
      continue;
    }
    if (Dom::nm(H) == N) {
      return H;
    }
    if (Rank(Dom::nm(H)) < Rank(N)) {
      After = H;
    }
  }
  auto *E = xmlNewNode(nullptr, x(N));
  if (After) {
    xmlAddNextSibling(After, E);
  } else {
    xmlAddChild(Option, E);
  }
  return E;
}

// one change of the description, in the grammar
void contradict(Rng &R, Dom &D, const std::vector<std::string> &Names) {
  auto Os = D.all("configurationOption");
  if (Os.empty()) {
    return;
  }
  auto Name = [&]() -> std::string {
    static const std::vector<std::string> Odd = {"missing", "", "root", "base", "Root", "a b", "ROOT"};
    return R.chance(15) || Names.empty() ? R.pick(Odd) : R.pick(Names);
  };
  auto *O = R.pick(Os);
  auto List = [&](const char *K) {
    auto *P = part(O, K);
    auto *E = xmlNewNode(nullptr, x("options"));
    setText(E, Name());
    xmlAddChild(P, E);
  };
  switch (R.below(12)) {
  case 0: setText(part(O, "parent"), Name()); break;
  case 1: List("children"); break;
  case 2: List("impliedOptions"); break;
  case 3: List("excludedOptions"); break;
  case 4: setText(part(O, "name"), Name()); break;
  case 5: xmlAddNextSibling(R.pick(Os), xmlCopyNode(O, 1)); break;
  case 6: {
    xmlUnlinkNode(O);
    xmlFreeNode(O);
    break;
  }
  case 7: { // move between binary and numeric
    auto V = D.all(R.chance(50) ? "numericOptions" : "binaryOptions");
    if (!V.empty()) {
      xmlUnlinkNode(O);
      xmlAddChild(V[0], O);
    }
    break;
  }
  case 8:
  case 9: {
    auto V = D.all("constraint");
    if (!V.empty()) {
      auto *K = R.pick(V);
      static const std::vector<std::string> Ts = {"", "A", "(", "A =", "!", "1", "A & missing", "=> A", "A B", "A or", "99999999999999999999",
                                                  "A = 1e3", "A & (B", "A ! B", "x * * y", "A =< B", "A == B", "A <= B >= C", "~A"};
      auto *Old = xmlNodeGetContent(K);
      std::string S = reinterpret_cast<char *>(Old);
      xmlFree(Old);
      switch (R.below(5)) {
      case 0: S = R.pick(Ts); break;
      case 1: S.resize(R.below(S.size() + 1)); break;
      case 2: S.insert(R.below(S.size() + 1), std::string(1, "()&|!=<>+-* 1a~"[R.below(15)])); break;
      case 3: S += " & " + Name(); break;
      default: S = R.pick(Names.empty() ? Ts : Names) + " => " + Name();
      }
      setText(K, S);
    }
    break;
  }
  case 10: { // two at once: the edge turns around
    auto Ps = D.all("parent");
    if (!Ps.empty()) {
      auto *P = R.pick(Ps);
      auto *C = part(P->parent, "children");
      auto *E = xmlNewNode(nullptr, x("options"));
      auto *T = xmlNodeGetContent(P);
      setText(E, reinterpret_cast<char *>(T));
      xmlFree(T);
      xmlAddChild(C, E);
      if (R.chance(50)) {
        setText(P, "");
      }
    }
    break;
  }
  default: {
    auto Vs = D.all(R.chance(50) ? "options" : "parent");
    if (!Vs.empty()) {
      setText(R.pick(Vs), Name());
    }
  }
  }
}
// one change of the tree of elements, anywhere
void warp(Rng &R, Dom &D, const std::vector<std::string> &Names) {
  auto Ns = D.all();
  auto *N = R.pick(Ns);
  static const std::vector<std::string> Texts = {"", " ", "0", "-1", "1", "99999999999999999999", "-99999999999999999999", "1.5", "1e3", "abc",
                                                 "1;2;3", "-5 -6", "--7", "x + 1", "x +", "2 ^ x", "True", "true", "False", "\xc3\xa4", "a::b",
                                                 "::", "::a", "a:b", "/", "a\nb", "a => b", "root", "base", "4294967296", "00012", "+3"};
  switch (R.below(14)) {
  case 0:
    if (N != xmlDocGetRootElement(D.D)) {
      xmlUnlinkNode(N);
      xmlFreeNode(N);
    }
    break;
  case 1: xmlAddNextSibling(N == xmlDocGetRootElement(D.D) ? R.pick(Ns)->children ? N->children : N : N, xmlCopyNode(R.pick(Ns), 1)); break;
  case 2: xmlNodeSetName(N, x(R.pick(elementNames()))); break;
  case 3: {
    auto *C = xmlNewNode(nullptr, x(R.pick(elementNames())));
    if (R.chance(50)) {
      setText(C, R.pick(Texts));
    }
    xmlAddChild(N, C);
    break;
  }
  case 4:
  case 5:
  case 6:
  case 7: {
    std::vector<xmlNodePtr> Leafs;
    for (auto *M : Ns) {
      if (!xmlFirstElementChild(M)) {
        Leafs.push_back(M);
      }
    }
    setText(R.pick(Leafs), R.chance(20) && !Names.empty() ? R.pick(Names) : R.pick(Texts));
    break;
  }
  case 8: {
    static const std::vector<std::string> K = {"name", "root", "commit", "category", "req", "exprKind", "id"};
    static const std::vector<std::string> Vs = {"", "none", "neg", "all", "pos", "necessary", "inessential", "Inessential", "x"};
    xmlSetProp(N, x(R.pick(K)), x(R.pick(Vs)));
    break;
  }
  case 9:
    if (N->properties) {
      xmlRemoveProp(N->properties);
    }
    break;
  case 10: {
    auto *A = R.pick(Ns);
    auto *B = xmlNextElementSibling(A);
    if (B && A != xmlDocGetRootElement(D.D)) {
      xmlUnlinkNode(A);
      xmlAddNextSibling(B, A);
    }
    break;
  }
  case 11: xmlAddChild(N, R.chance(50) ? xmlNewCDataBlock(D.D, x("q"), 1) : xmlNewText(x(R.chance(50) ? "t" : " \n"))); break;
  case 12: xmlAddChild(N, R.chance(50) ? xmlNewComment(x(" c ")) : xmlNewPI(x("pi"), x("d"))); break;
  default: { // move below another element
    auto *To = R.pick(Ns);
    bool Below = false;
    for (auto *P = To; P; P = P->parent) {
      Below = Below || P == N;
    }
    if (!Below) {
      xmlUnlinkNode(N);
      xmlAddChild(To, N);
    }
  }
  }
}
void damageText(Rng &R, std::string &T) {
  static const std::vector<std::string> Dict = {"<", ">", "&", "\"", "&amp;", "&x;", "<![CDATA[", "]]>", "<!-- ", "-->", "<?pi?>", "<?xml version=\"1.0\"?>",
                                                "<!DOCTYPE vm>", "<!DOCTYPE vm [<!ELEMENT vm ANY>]>", "<!DOCTYPE vm [<!ENTITY e 'x'>]>", "\xff", "\xc3",
                                                std::string(1, '\0'), "&#0;", "&#10;", " xmlns=\"u\"", "\xef\xbb\xbf", "<vm name=\"a\">", "</vm>", "<name/>",
                                                "<configurationOption>", "</configurationOption>", " name=\"b\""};
  switch (R.below(6)) {
  case 0: T.resize(R.below(T.size() + 1)); break;
  case 1: T.insert(R.below(T.size() + 1), R.pick(Dict)); break;
  case 2: {
    size_t A = R.below(T.size() + 1), N = R.below(30);
    T.erase(A, N);
    break;
  }
  case 3: {
    size_t A = R.below(T.size() + 1);
    T.insert(R.below(T.size() + 1), T.substr(A, R.below(60)));
    break;
  }
  case 4:
    if (!T.empty()) {
      T[R.below(T.size())] = static_cast<char>(R.below(256));
    }
    break;
  default: {
    auto &A = R.pick(elementNames());
    auto P = T.find("<" + A);
    if (P != std::string::npos) {
      T.replace(P + 1, A.size(), R.pick(elementNames()));
    }
  }
  }
}
void run(Ctx &C) {
  auto &R = C.R;
  std::string T;
  auto K = R.below(100);
  if (K < 96) {
    GenOpt O;
    O.MinF = 1;
    O.MaxF = 6;
    O.Groups = 0;
    O.Cons = 3;
    O.Textual = true;
    O.XmlRoot = true;
    O.FullLocs = true;
    O.WeirdText = R.chance(30);
    Model M = genModel(R, O);
    if (R.chance(25)) {
      addExclusions(R, M, 60, 30);
    }
    T = XmlOut(R, M, {R.chance(50)}).text();
    auto Names = M.names();
    if (K < 45) {
      Dom D(T);
      for (uint64_t N = 1 + R.below(4) / 2; N; --N) {
        contradict(R, D, Names);
      }
      T = D.text();
      C.note("contradicted");
    } else if (K < 75) {
      Dom D(T);
      for (uint64_t N = 1 + R.below(4) / 2; N; --N) {
        warp(R, D, Names);
      }
      T = D.text();
      C.note("tree_damaged");
    } else {
      for (uint64_t N = 1 + R.below(3); N; --N) {
        damageText(R, T);
      }
      C.note("text_damaged");
    }
  } else {
    for (size_t N = R.below(200); N; --N) {
      T += R.chance(50) ? static_cast<char>(R.below(256)) : "<>/vm nae=\"'&;!-[]"[R.below(17)];
    }
    C.note("bytes");
  }
  judge(C, T, R.chance(3));
  C.distinct(T);
  C.sample(T);
}

std::string doc(const std::string &Bin, const std::string &Rest = "") {
  return "<vm name='m' root='r'><binaryOptions>" + Bin + "</binaryOptions>" + Rest + "</vm>";
}
std::string opt(const std::string &N, const std::string &Rest = "") {
  return "<configurationOption><name>" + N + "</name>" + Rest + "</configurationOption>";
}
void is(Ctx &C, Ans Valid, Ans Loads, const std::string &T) {
  auto V = readXml(T);
  C.check(V.Valid == Valid && V.Loads == Loads, "setup", "own reader misjudges " + T);
  judge(C, T);
  judge(C, T, true);
}
void probeKinds(Ctx &C) {
  auto Bad = [&](const std::string &T) { is(C, Ans::No, Ans::No, T); };
  auto No = [&](const std::string &T) { is(C, Ans::Yes, Ans::No, T); };
  auto Yes = [&](const std::string &T) { is(C, Ans::Yes, Ans::Yes, T); };
  for (auto T : {"", " ", "x", "<vm", "<vm/>", "<vm name='a'/>", "<vm name='a'><binaryOptions></vm>", "<name>x</name>", "<binaryOptions/>",
                 "<configurationOption><name>x</name></configurationOption>", "<vm><binaryOptions/></vm>",
                 "<vm name='a' x='b'><binaryOptions/></vm>", "<vm name='a'><numericOptions/><binaryOptions/></vm>",
                 "<vm name='a'>x<binaryOptions/></vm>", "<vm name='a'><binaryOptions/><x/></vm>", "<vm name='a'><binaryOptions/></vm><vm/>"}) {
    Bad(T);
  }
  auto Range = [](const std::string &Cat) {
    return doc(opt("A", "<locations><sourceRange" + Cat +
                            "><path>a</path><start><line>1</line><column>2</column></start><end><line>3</line><column>4</column></"
                            "end></sourceRange></locations>"));
  };
  Yes(Range(""));
  Yes(Range(" category='inessential'"));
  Bad(Range(" category='other'"));
  Bad(Range(" category=''"));
  Bad(doc(opt("A", "<parent>root</parent><outputString>x</outputString>")));
  Bad(doc(opt("A", "<optional>True</optional><optional>True</optional>")));
  Bad(doc(opt("A", "<minValue>1</minValue>")));
  Bad(doc("<configurationOption/>"));
  Yes(doc(""));
  Yes(doc(opt("")));
  No(doc(opt("A") + opt("A")));
  No(doc(opt("A"), "<numericOptions>" + opt("A", "<values>1</values>") + "</numericOptions>"));
  No(doc(opt("A", "<parent>A</parent>")));
  No(doc(opt("A", "<parent>B</parent>") + opt("B", "<parent>A</parent>")));
  No(doc(opt("A", "<parent>B</parent>") + opt("B", "<parent>C</parent>") + opt("C", "<parent>A</parent>") + opt("D")));
  No(doc(opt("A", "<children><options>B</options></children>") + opt("B", "<children><options>A</options></children>")));
  No(doc(opt("A", "<parent>X</parent>")));
  No(doc(opt("A", "<children><options>X</options></children>")));
  No(doc(opt("A", "<children><options>root</options></children>")));
  No(doc(opt("A") + opt("root", "<parent>A</parent>")));
  No(doc(opt("A", "<parent>B</parent>") + opt("B") + opt("C", "<children><options>A</options></children>")));
  No(doc(opt("C", "<children><options>A</options></children>") + opt("B") + opt("A", "<parent>B</parent>")));
  No(doc(opt("A", "<children><options>B</options></children>") + opt("B") + opt("C", "<children><options>B</options></children>")));
  No(doc(opt("A", "<parent>root</parent>") + opt("C", "<children><options>A</options></children>")));
  No(doc(opt("A", "<impliedOptions><options>X</options></impliedOptions>")));
  No(doc(opt("A", "<excludedOptions><options>X</options></excludedOptions>")));
  No(doc(opt("A", "<excludedOptions><options>A</options><options/></excludedOptions>")));
  No(doc(opt("base") + opt("A", "<parent>root</parent>")));
  Yes(doc(opt("base") + opt("A", "<parent>base</parent>")));
  is(C, Ans::Yes, Ans::Open, doc(opt("root") + opt("base") + opt("A", "<parent>base</parent>")));
  is(C, Ans::Yes, Ans::Open, doc(opt("root") + opt("base") + opt("A", "<parent>root</parent>")));
  is(C, Ans::Yes, Ans::Open, doc(opt("root") + opt("root")));
  for (auto K : {"booleanConstraints", "nonBooleanConstraints", "mixedConstraints"}) {
    std::string N = K;
    for (auto S : {"X", "", " ", "A |", "A + X > 1", "(A", "A)", "A A", "&amp;", "A $ B", "!"}) {
      No(doc(opt("A"), "<" + N + "><constraint>A</constraint><constraint>" + S + "</constraint></" + N + ">"));
    }
    Yes(doc(opt("A"), "<" + N + "><constraint>A</constraint></" + N + ">"));
    Bad(doc(opt("A"), "<" + N + "><constraint><A/></constraint></" + N + ">"));
  }
}
void probeFiles(Ctx &C) {
  for (auto P : {"", "missing.xml", ".", "/", "/dev/null", "a\nb", "/proc/self/mem"}) {
    C.check(!vfe::verifyFeatureModel(P), "file", "verifies " + std::string(P));
    C.check(!vfe::loadFeatureModel(P), "file", "loads " + std::string(P));
    C.note("unreadable_files");
  }
}
void probeLong(Ctx &C) {
  for (size_t N : {2000, 100000}) {
    std::string A(N, 'a');
    is(C, Ans::Yes, Ans::Yes, doc(opt(A), "<booleanConstraints><constraint>" + A + "</constraint></booleanConstraints>"));
    is(C, Ans::Yes, Ans::Yes, doc("", "<numericOptions>" + opt("A", "<values>" + std::string(N, '1') + "</values>") + "</numericOptions>"));
    is(C, Ans::Yes, Ans::Yes, doc("", "<numericOptions>" + opt("A", "<values>" + std::string(N, '-') + "</values>") + "</numericOptions>"));
    std::string Many;
    for (size_t I = 0; I < N / 200; ++I) {
      Many += opt("f" + std::to_string(I), I ? "<parent>f" + std::to_string(I - 1) + "</parent>" : "");
    }
    is(C, Ans::Yes, Ans::Yes, doc(Many));
    Many += opt("f1");
    is(C, Ans::Yes, Ans::No, doc(Many));
    std::string Sum = "A";
    for (size_t I = 0; I < N / 20; ++I) {
      Sum += " + A";
    }
    judge(C, doc(opt("A"), "<nonBooleanConstraints><constraint>" + Sum.substr(0, 1000) + "</constraint></nonBooleanConstraints>"));
  }
  std::string Vals;
  for (int I = 0; I < 20000; ++I) {
    Vals += std::to_string(I * 7919 - 5000) + ";";
  }
  is(C, Ans::Yes, Ans::Yes, doc("", "<numericOptions>" + opt("A", "<values>" + Vals + "</values>") + "</numericOptions>"));
}
} // namespace
int main(int argc, char **argv) {
  return harnessMain(argc, argv, run, {{"kinds", probeKinds}, {"files", probeFiles}, {"long", probeLong}});
}
