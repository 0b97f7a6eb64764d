// C18: configurations keep their options; JSON text and back.
#include "common.h"
#include "vara/Configuration/Configuration.h"
using namespace vf;
namespace vfe = vara::feature;

namespace {
struct Val {
  int K = 2; // 0 bool 1 int 2 text
  bool B = false;
  int64_t I = 0;
  std::string S;
  std::string str() const { return K == 0 ? (B ? "true" : "false") : K == 1 ? std::to_string(I) : S; }
  std::string tagged() const { return "bit"[K] + (":" + str()); }
};

Val typed(const std::string &T) {
  Val V;
  std::string L;
  for (char C : T) {
    L += static_cast<char>(C >= 'A' && C <= 'Z' ? C + 32 : C);
  }
  if (L == "true" || L == "false") {
    V.K = 0;
    V.B = L == "true";
    return V;
  }
  size_t P = !T.empty() && T[0] == '-' ? 1 : 0;
  bool Num = T.size() > P;
  __int128 N = 0;
  for (size_t I = P; I < T.size(); ++I) {
    if (T[I] < '0' || T[I] > '9') {
      Num = false;
      break;
    }
    N = N * 10 + (T[I] - '0');
    if (N > (__int128)INT64_MAX + 1) {
      N = (__int128)INT64_MAX + 2;
    }
  }
  if (P) {
    N = -N;
  }
  if (Num && N <= INT64_MAX && N >= INT64_MIN) {
    V.K = 1;
    V.I = static_cast<int64_t>(N);
    return V;
  }
  V.S = T;
  return V;
}

std::string utf8(uint32_t C) {
  std::string O;
  if (C < 0x80) {
    O += static_cast<char>(C);
  } else if (C < 0x800) {
    O += static_cast<char>(0xC0 | C >> 6);
    O += static_cast<char>(0x80 | (C & 63));
  } else if (C < 0x10000) {
    O += static_cast<char>(0xE0 | C >> 12);
    O += static_cast<char>(0x80 | (C >> 6 & 63));
    O += static_cast<char>(0x80 | (C & 63));
  } else {
    O += static_cast<char>(0xF0 | C >> 18);
    O += static_cast<char>(0x80 | (C >> 12 & 63));
    O += static_cast<char>(0x80 | (C >> 6 & 63));
    O += static_cast<char>(0x80 | (C & 63));
  }
  return O;
}

uint32_t someChar(Rng &R) {
  switch (R.below(12)) {
  case 0: return static_cast<uint32_t>(R.below(32));
  case 1: return "\"\\/:{}[],"[R.below(9)];
  case 2: return static_cast<uint32_t>(R.range(0x80, 0x7ff));
  case 3: return static_cast<uint32_t>(R.range(0x800, 0xd7ff));
  case 4: return static_cast<uint32_t>(R.range(0xe000, 0xfffd));
  case 5: return static_cast<uint32_t>(R.range(0x10000, 0x10ffff));
  default: return static_cast<uint32_t>(R.range(32, 126));
  }
}

std::string someText(Rng &R) {
  std::string O;
  size_t N = R.below(R.chance(5) ? 200 : 9);
  while (N--) {
    O += utf8(someChar(R));
  }
  return O;
}

std::string someValue(Rng &R) {
  static const std::vector<std::string> P = {
      "true", "false", "True", "FALSE", "tRuE", "TRUE", "", " true", "true ", "truee", "0", "1", "-1", "-0",
      "007", "+5", "0x10", "0b1", "1e3", "1.5", " 7", "7 ", "--7", "-", "9223372036854775807",
      "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "null", "fals", "[]",
      "00000000000000000000000000000012", "12345678901234567890123"};
  if (R.chance(45)) {
    return R.pick(P);
  }
  if (R.chance(40)) {
    return std::to_string(static_cast<int64_t>(R.next()) >> R.below(64));
  }
  return someText(R);
}

std::string someName(Rng &R) {
  static const std::vector<std::string> P = {"a", "A", "foo", "foo ", "", "x::y", "True", "1", "\"", "\\", "n\nl"};
  return R.chance(50) ? R.pick(P) : someText(R);
}

using Map = std::map<std::string, Val>;

void judge(Ctx &C, vfe::Configuration &Conf, const Map &M, const std::string &What) {
  Map Seen;
  std::vector<std::string> Names;
  for (auto &It : Conf) {
    auto &O = *It.second;
    Names.push_back(O.name().str());
    C.eq(It.first().str(), O.name().str(), "iterate", What + ": key and option name");
    Val V;
    int Kinds = (O.isBool() ? 1 : 0) + (O.isInt() ? 1 : 0) + (O.isString() ? 1 : 0);
    C.eq(Kinds, 1, "type", What + ": number of types of " + show(O.name().str()));
    V.K = O.isBool() ? 0 : O.isInt() ? 1 : 2;
    C.eq(O.boolValue().has_value(), V.K == 0, "type", What + ": boolean view");
    C.eq(O.intValue().has_value(), V.K == 1, "type", What + ": integer view");
    C.eq(O.stringValue().has_value(), V.K == 2, "type", What + ": text view");
    if (V.K == 0) { V.B = *O.boolValue(); }
    if (V.K == 1) { V.I = *O.intValue(); }
    if (V.K == 2) { V.S = O.stringValue()->str(); }
    C.eq(O.asString(), V.str(), "as-text", What + ": text of " + show(O.name().str()));
    C.eq(O.toString(), O.name().str() + ": " + V.str(), "as-text", What + ": printed option");
    Seen[O.name().str()] = V;
  }
  C.eq(Names.size(), M.size(), "iterate", What + ": options visited");
  const auto &Const = Conf;
  std::multiset<std::string> N2;
  for (auto It = Const.begin(); It != Const.end(); ++It) {
    N2.insert(It->first().str());
  }
  C.check(N2 == std::multiset<std::string>(Names.begin(), Names.end()), "iterate-const",
          What + ": constant iteration visits other options");
  for (auto &[K, V] : M) {
    auto S = Seen.find(K);
    if (C.check(S != Seen.end(), "lost", What + ": no option <" + K + ">")) {
      C.eq(S->second.tagged(), V.tagged(), "value", What + ": option <" + K + ">");
    }
    auto Q = Conf.configurationOptionValue(K);
    if (C.check(Q.has_value(), "lost", What + ": no value for <" + K + ">")) {
      C.eq(*Q, V.str(), "value", What + ": value of <" + K + ">");
    }
    auto Not = K + "_";
    if (!M.count(Not)) {
      C.check(!Conf.configurationOptionValue(Not).has_value(), "invented", What + ": value for <" + Not + "> never stored");
    }
    C.note("options");
  }
}

// strict own JSON reader -------------------------------------------------
struct Json {
  const std::string &T;
  size_t I = 0;
  bool Lone = false; // lone surrogate escapes: replacement is unspecified
  bool Dup = false;
  bool NonStr = false;
  // any other value, loosely: it makes the text no object of strings anyway
  bool skip(int Depth = 0) {
    sp();
    if (I >= T.size() || Depth > 200) {
      return false;
    }
    if (T[I] == '"') {
      return str().has_value();
    }
    if (T[I] == '{' || T[I] == '[') {
      char End = T[I] == '{' ? '}' : ']';
      bool Obj = T[I++] == '{';
      sp();
      if (I < T.size() && T[I] == End) {
        ++I;
        return true;
      }
      while (true) {
        sp();
        if (Obj) {
          if (!str()) {
            return false;
          }
          sp();
          if (I >= T.size() || T[I++] != ':') {
            return false;
          }
        }
        if (!skip(Depth + 1)) {
          return false;
        }
        sp();
        if (I >= T.size()) {
          return false;
        }
        if (T[I] == End) {
          ++I;
          return true;
        }
        if (T[I++] != ',') {
          return false;
        }
      }
    }
    size_t J = I;
    while (I < T.size() && (std::isalnum(static_cast<unsigned char>(T[I])) || T[I] == '-' || T[I] == '+' || T[I] == '.')) {
      ++I;
    }
    return I > J;
  }
  explicit Json(const std::string &T) : T(T) {}
  void sp() {
    while (I < T.size() && (T[I] == ' ' || T[I] == '\t' || T[I] == '\n' || T[I] == '\r')) {
      ++I;
    }
  }
  static bool validUtf8(const std::string &S) {
    for (size_t K = 0; K < S.size();) {
      unsigned char B = static_cast<unsigned char>(S[K]);
      int N = B < 0x80 ? 0 : B >= 0xC2 && B < 0xE0 ? 1 : B >= 0xE0 && B < 0xF0 ? 2 : B >= 0xF0 && B < 0xF5 ? 3 : -1;
      if (N < 0 || K + N >= S.size()) {
        return false;
      }
      uint32_t V = N == 0 ? B : B & (0x3F >> N);
      for (int J = 1; J <= N; ++J) {
        unsigned char X = static_cast<unsigned char>(S[K + J]);
        if ((X & 0xC0) != 0x80) {
          return false;
        }
        V = V << 6 | (X & 63);
      }
      if ((N == 2 && V < 0x800) || (N == 3 && (V < 0x10000 || V > 0x10ffff)) || (V >= 0xd800 && V < 0xe000)) {
        return false;
      }
      K += 1 + N;
    }
    return true;
  }
  std::optional<uint32_t> hex4() {
    if (I + 4 > T.size()) {
      return std::nullopt;
    }
    uint32_t V = 0;
    for (int K = 0; K < 4; ++K) {
      char X = T[I++];
      int D = X >= '0' && X <= '9' ? X - '0' : X >= 'a' && X <= 'f' ? X - 'a' + 10 : X >= 'A' && X <= 'F' ? X - 'A' + 10 : -1;
      if (D < 0) {
        return std::nullopt;
      }
      V = V * 16 + static_cast<uint32_t>(D);
    }
    return V;
  }
  std::optional<std::string> str() {
    if (I >= T.size() || T[I] != '"') {
      return std::nullopt;
    }
    ++I;
    std::string O;
    while (I < T.size() && T[I] != '"') {
      unsigned char X = static_cast<unsigned char>(T[I]);
      if (X < 0x20) {
        return std::nullopt;
      }
      if (X != '\\') {
        O += T[I++];
        continue;
      }
      if (++I >= T.size()) {
        return std::nullopt;
      }
      char E = T[I++];
      switch (E) {
      case 'b': O += '\b'; break;
      case 'f': O += '\f'; break;
      case 'n': O += '\n'; break;
      case 'r': O += '\r'; break;
      case 't': O += '\t'; break;
      case '"': case '\\': case '/': O += E; break;
      case 'u': {
        auto V = hex4();
        if (!V) {
          return std::nullopt;
        }
        uint32_t P = *V;
        if (P >= 0xdc00 && P < 0xe000) {
          Lone = true;
        } else if (P >= 0xd800 && P < 0xdc00) {
          if (I + 1 < T.size() && T[I] == '\\' && T[I + 1] == 'u') {
            I += 2;
            auto W = hex4();
            if (!W) {
              return std::nullopt;
            }
            if (*W >= 0xdc00 && *W < 0xe000) {
              P = 0x10000 + ((P - 0xd800) << 10) + (*W - 0xdc00);
            } else {
              Lone = true;
            }
          } else {
            Lone = true;
          }
        }
        O += Lone ? "?" : utf8(P);
        break;
      }
      default: return std::nullopt;
      }
    }
    if (I >= T.size()) {
      return std::nullopt;
    }
    ++I;
    return O;
  }
  // object of strings
  std::optional<std::vector<std::pair<std::string, std::string>>> read() {
    if (!validUtf8(T)) {
      return std::nullopt;
    }
    std::vector<std::pair<std::string, std::string>> O;
    sp();
    if (I >= T.size() || T[I] != '{') {
      return std::nullopt;
    }
    ++I;
    sp();
    if (I < T.size() && T[I] == '}') {
      ++I;
    } else {
      while (true) {
        sp();
        auto K = str();
        sp();
        if (!K || I >= T.size() || T[I] != ':') {
          return std::nullopt;
        }
        ++I;
        sp();
        std::optional<std::string> V;
        if (I < T.size() && T[I] == '"') {
          V = str();
          if (!V) {
            return std::nullopt;
          }
        } else {
          NonStr = true;
          V = "";
          if (!skip()) {
            return std::nullopt;
          }
        }
        for (auto &P : O) {
          Dup |= P.first == *K;
        }
        O.emplace_back(*K, *V);
        sp();
        if (I < T.size() && T[I] == ',') {
          ++I;
          continue;
        }
        if (I < T.size() && T[I] == '}') {
          ++I;
          break;
        }
        return std::nullopt;
      }
    }
    sp();
    return I == T.size() ? std::optional(O) : std::nullopt;
  }
};

std::string quote(Rng &R, const std::string &S) {
  std::string O = "\"";
  for (size_t I = 0; I < S.size(); ++I) {
    unsigned char X = static_cast<unsigned char>(S[I]);
    char B[8];
    if (X == '"' || X == '\\') {
      O += '\\';
      O += S[I];
    } else if (X < 0x20 || (X < 0x80 && R.chance(8))) {
      std::snprintf(B, sizeof B, R.chance(50) ? "\\u%04x" : "\\u%04X", X);
      O += B;
    } else if (X == '/' && R.chance(50)) {
      O += "\\/";
    } else {
      O += S[I];
    }
  }
  return O + "\"";
}

void readText(Ctx &C, const std::string &T) {
  C.say("json: " + T);
  Json J(T);
  auto Want = J.read();
  auto Got = vfe::Configuration::createConfigurationFromString(T);
  if (!Want || (J.NonStr && !J.Dup)) {
    C.note("json_refused");
    C.check(!Got, "accepts-bad-json", "text that is no object of strings gave a configuration");
    return;
  }
  if (J.Lone || J.Dup) {
    C.note("json_unspecified");
    return;
  }
  C.note("json_read");
  if (!C.check(Got != nullptr, "rejects-json", "valid object of strings refused")) {
    return;
  }
  Map M;
  for (auto &[K, V] : *Want) {
    M[K] = typed(V);
  }
  judge(C, *Got, M, "read");
}

void roundTrip(Ctx &C, vfe::Configuration &Conf, const Map &M) {
  auto T = Conf.dumpToString();
  C.say("dump: " + T);
  Json J(T);
  auto Own = J.read();
  if (C.check(Own.has_value(), "dump", "the dump is no JSON object of strings")) {
    Map Mine;
    for (auto &[K, V] : *Own) {
      Mine[K] = typed(V);
    }
    C.check(!J.Dup && Mine.size() == M.size(), "dump", "the dump has other options");
    for (auto &[K, V] : M) {
      C.check(Mine.count(K) && Mine[K].tagged() == V.tagged(), "dump", "the dump loses <" + K + ">");
    }
  }
  auto Again = vfe::Configuration::createConfigurationFromString(T);
  if (C.check(Again != nullptr, "dump-reread", "the dump is refused")) {
    judge(C, *Again, M, "reread");
    C.eq(Again->dumpToString(), T, "dump-stable", "dump of the reread dump");
  }
  C.eq(Conf.dumpToString(), T, "dump-stable", "second dump");
  C.note("round_trips");
}

void run(Ctx &C) {
  auto &R = C.R;
  if (R.chance(50)) { // a history of stores
    vfe::Configuration Conf;
    Map M;
    std::vector<std::string> Names;
    size_t N = R.below(R.chance(5) ? 120 : 12);
    std::string H;
    for (size_t I = 0; I < N; ++I) {
      auto Nm = !Names.empty() && R.chance(40) ? R.pick(Names) : someName(R);
      Names.push_back(Nm);
      auto V = someValue(R);
      H += show(Nm) + "=" + show(V) + ";";
      if (R.chance(50)) {
        Conf.setConfigurationOption(Nm, V);
      } else {
        Conf.addConfigurationOption(std::make_unique<vfe::ConfigurationOption>(Nm, V));
      }
      M[Nm] = typed(V);
      if (R.chance(20)) {
        judge(C, Conf, M, "after store " + std::to_string(I));
      }
    }
    C.say("stores: " + H);
    if (N > 1) {
      C.distinct(H);
      C.sample(H);
    }
    C.note("histories");
    judge(C, Conf, M, "stored");
    roundTrip(C, Conf, M);
    judge(C, Conf, M, "after dump");
    return;
  }
  // JSON text
  std::string T = R.chance(20) ? " \n" : "";
  T += "{";
  size_t N = R.below(6);
  std::set<std::string> Used;
  bool First = true;
  while (N--) {
    auto K = someName(R);
    if (!Used.insert(K).second && R.chance(90)) {
      continue;
    }
    T += (First ? "" : ",") + std::string(R.chance(30) ? " " : "") + quote(R, K) + (R.chance(30) ? " : " : ":");
    First = false;
    if (R.chance(8)) {
      static const std::vector<std::string> Bad = {"1", "true", "null", "{}", "[]", "[\"a\"]", "-1.5e3", "{\"a\":\"b\"}", "tru", "01", "'a'"};
      T += R.pick(Bad);
    } else {
      T += quote(R, someValue(R));
    }
  }
  T += R.chance(3) ? ",}" : "}";
  if (R.chance(20)) {
    T += "\n ";
  }
  if (R.chance(45)) { // damage
    static const std::string Ins = "{}[]\",:\\u0 \n1tn/";
    size_t K = 1 + R.below(3);
    while (K--) {
      size_t P = R.below(T.size() + 1);
      switch (R.below(5)) {
      case 0: if (P < T.size()) { T.erase(P, 1 + R.below(3)); } break;
      case 1: T.insert(P, 1, Ins[R.below(Ins.size())]); break;
      case 2: if (P < T.size()) { T[P] = static_cast<char>(R.below(256)); } break;
      case 3: T = T.substr(0, P); break;
      default: T += T.substr(P / 2, P);
      }
    }
  } else if (R.chance(5)) {
    T.clear();
    size_t L = R.below(60);
    while (L--) {
      T += static_cast<char>(R.below(256));
    }
  }
  C.distinct(T);
  readText(C, T);
}
} // namespace
int main(int argc, char **argv) {
  return harnessMain(argc, argv, run,
                     {{"upper-case-true", [](Ctx &C) { readText(C, "{\"a\":\"TRUE\",\"b\":\"False\"}"); }},
                      {"radix", [](Ctx &C) { readText(C, "{\"a\":\"0x10\",\"b\":\"0b11\",\"c\":\"010\"}"); }},
                      {"empty", [](Ctx &C) { readText(C, ""); }},
                      {"list", [](Ctx &C) { readText(C, "[\"a\"]"); }}});
}
