// Shared case framework for all runtime monitors.
//
// A monitor is a function run once per numbered case.  Every random choice
// comes from (VERIF_SEED, case number), so a case replays exactly.  The case
// number is written to a status file before the case starts; if the process
// dies (sanitizer report, failed assertion, uncaught exception), the driver
// attributes the death to that case.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H

#include <algorithm>
#include <array>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

namespace vf {

struct Rng {
  uint64_t S;
  explicit Rng(uint64_t Seed = 1, uint64_t Case = 0, uint64_t Salt = 0) {
    S = Seed * 0x9E3779B97F4A7C15ull + Case * 0xD1342543DE82EF95ull +
        Salt * 0xA24BAED4963EE407ull + 0x1234567ull;
    for (int I = 0; I < 4; ++I) {
      next();
    }
  }
  uint64_t next() {
    uint64_t Z = (S += 0x9E3779B97F4A7C15ull);
    Z = (Z ^ (Z >> 30)) * 0xBF58476D1CE4E5B9ull;
    Z = (Z ^ (Z >> 27)) * 0x94D049BB133111EBull;
    return Z ^ (Z >> 31);
  }
  // uniform in [0, N)
  uint64_t below(uint64_t N) { return N ? next() % N : 0; }
  // uniform in [Lo, Hi]
  int64_t range(int64_t Lo, int64_t Hi) {
    return Lo + static_cast<int64_t>(
                    below(static_cast<uint64_t>(Hi - Lo) + 1));
  }
  bool chance(unsigned Percent) { return below(100) < Percent; }
  template <class T> const T &pick(const std::vector<T> &V) {
    return V[below(V.size())];
  }
  template <class T> T &pick(std::vector<T> &V) { return V[below(V.size())]; }
  template <class T> void shuffle(std::vector<T> &V) {
    for (size_t I = V.size(); I > 1; --I) {
      std::swap(V[I - 1], V[below(I)]);
    }
  }
};

inline uint64_t hashStr(const std::string &S, uint64_t H = 1469598103934665603ull) {
  for (unsigned char C : S) {
    H = (H ^ C) * 1099511628211ull;
  }
  return H;
}

inline std::string jsonStr(const std::string &S) {
  std::string O = "\"";
  for (unsigned char C : S) {
    char B[8];
    if (C == '"' || C == '\\') {
      O += '\\';
      O += static_cast<char>(C);
    } else if (C == '\n') {
      O += "\\n";
    } else if (C < 0x20 || C >= 0x7f) {
      std::snprintf(B, sizeof B, "\\u%04x", C);
      O += B;
    } else {
      O += static_cast<char>(C);
    }
  }
  return O + "\"";
}

// printable rendition of arbitrary bytes
inline std::string show(const std::string &S, size_t Max = 2000) {
  std::string O;
  for (unsigned char C : S) {
    if (O.size() > Max) {
      return O + "...";
    }
    char B[8];
    if (C == '\n' || (C >= 0x20 && C < 0x7f)) {
      O += static_cast<char>(C);
    } else {
      std::snprintf(B, sizeof B, "\\x%02x", C);
      O += B;
    }
  }
  return O;
}

struct Stats {
  std::map<std::string, uint64_t> Counters;
  std::unordered_set<uint64_t> Distinct;
  std::vector<std::string> Samples;
  uint64_t Cases = 0;
  uint64_t Fails = 0;
};

class Ctx {
public:
  Ctx(Stats &St, FILE *Out, uint64_t Seed, uint64_t Case, bool Thorough,
      bool Only)
      : R(Seed, Case), Seed(Seed), Case(Case), Thorough(Thorough), Only(Only),
        St(St), Out(Out) {}
  Rng R;
  const uint64_t Seed;
  const uint64_t Case;
  const bool Thorough;
  // replaying one case: be verbose
  const bool Only;

  // Report a violation.  Key classifies it (matched against known findings).
  void fail(const std::string &Key, const std::string &Msg) {
    ++St.Fails;
    Failed = true;
    if (++FailsHere > 3) {
      return;
    }
    std::fprintf(Out, "{\"fail\":%s,\"case\":%llu,\"msg\":%s}\n",
                 jsonStr(Key).c_str(), static_cast<unsigned long long>(Case),
                 jsonStr(show(Msg, 6000) + context()).c_str());
    std::fflush(Out);
    if (Only) {
      std::fprintf(stdout, "FAIL[%s] %s%s\n", Key.c_str(),
                   show(Msg, 20000).c_str(), context().c_str());
      std::fflush(stdout);
    }
  }
  bool check(bool Cond, const std::string &Key, const std::string &Msg) {
    if (!Cond) {
      fail(Key, Msg);
    }
    return Cond;
  }
  template <class A, class B>
  bool eq(const A &Got, const B &Want, const std::string &Key,
          const std::string &What) {
    if (Got == Want) {
      return true;
    }
    std::ostringstream O;
    O << What << ": got <" << Got << "> want <" << Want << ">";
    fail(Key, O.str());
    return false;
  }
  // Text describing the case so far; printed with failures and crashes.
  void say(const std::string &S) {
    Log += S;
    Log += "\n";
    if (Log.size() > 20000) {
      Log.erase(0, Log.size() - 15000);
    }
    if (Only) {
      std::fprintf(stdout, "%s\n", show(S, 20000).c_str());
      std::fflush(stdout);
    }
  }
  void note(const std::string &Counter, uint64_t N = 1) {
    St.Counters[Counter] += N;
  }
  // a distinct non-trivial input / state / history was observed
  void distinct(const std::string &S) { St.Distinct.insert(hashStr(S)); }
  void sample(const std::string &S) {
    if (St.Samples.size() < 4 && S.size() < 1500) {
      St.Samples.push_back(S);
    }
  }
  bool Failed = false;

private:
  std::string context() const {
    return Log.empty() ? std::string() : "\n--- case log ---\n" + show(Log, 9000);
  }
  Stats &St;
  FILE *Out;
  std::string Log;
  int FailsHere = 0;
};

using CaseFn = void (*)(Ctx &);
struct Probe {
  const char *Name;
  CaseFn Fn;
};

// Several harnesses in one program: their main() functions only leave here what
// they would run (see c27.cpp).
struct Part {
  CaseFn Fn;
  std::vector<Probe> Probes;
};
inline std::vector<Part> *&collector() {
  static std::vector<Part> *P = nullptr;
  return P;
}

inline int harnessMain(int Argc, char **Argv, CaseFn Fn,
                       const std::vector<Probe> &Probes = {}) {
  if (auto *P = collector()) {
    P->push_back({Fn, Probes});
    return 0;
  }
  uint64_t From = 0, To = 0, Seed = 1;
  std::string Status, OutPath, ProbeName, ErrPath;
  bool Thorough = false, Only = false;
  for (int I = 1; I < Argc; ++I) {
    std::string A = Argv[I];
    auto Val = [&]() -> std::string { return I + 1 < Argc ? Argv[++I] : ""; };
    if (A == "--from") {
      From = std::strtoull(Val().c_str(), nullptr, 10);
    } else if (A == "--to") {
      To = std::strtoull(Val().c_str(), nullptr, 10);
    } else if (A == "--only") {
      From = std::strtoull(Val().c_str(), nullptr, 10);
      To = From + 1;
      Only = true;
    } else if (A == "--seed") {
      Seed = std::strtoull(Val().c_str(), nullptr, 10);
    } else if (A == "--status") {
      Status = Val();
    } else if (A == "--out") {
      OutPath = Val();
    } else if (A == "--err") {
      ErrPath = Val();
    } else if (A == "--thorough") {
      Thorough = true;
    } else if (A == "--probe") {
      ProbeName = Val();
      Only = true;
    } else if (A == "--list-probes") {
      for (const auto &P : Probes) {
        std::printf("%s\n", P.Name);
      }
      return 0;
    }
  }
  volatile uint64_t *Cur = nullptr;
  uint64_t Dummy = 0;
  if (!Status.empty()) {
    int Fd = ::open(Status.c_str(), O_RDWR | O_CREAT, 0644);
    if (Fd < 0 || ftruncate(Fd, 16) != 0) {
      return 3;
    }
    void *P = mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, Fd, 0);
    if (P == MAP_FAILED) {
      return 3;
    }
    Cur = static_cast<volatile uint64_t *>(P);
  } else {
    Cur = &Dummy;
  }
  if (!ErrPath.empty()) {
    int Fd = ::open(ErrPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND,
                    0644);
    if (Fd < 0 || dup2(Fd, 2) < 0) {
      return 3;
    }
  }
  FILE *Out = OutPath.empty() ? stdout : std::fopen(OutPath.c_str(), "a");
  if (!Out) {
    return 3;
  }
  Stats St;
  if (!ProbeName.empty()) {
    for (const auto &P : Probes) {
      if (ProbeName == P.Name) {
        Ctx C(St, Out, Seed, 0, Thorough, true);
        P.Fn(C);
        return St.Fails ? 1 : 0;
      }
    }
    std::fprintf(stderr, "no probe %s\n", ProbeName.c_str());
    return 3;
  }
  for (uint64_t I = From; I < To; ++I) {
    Cur[0] = I;
    if (!ErrPath.empty()) {
      // keep only the output of the current case, so that a crash report
      // shows what belongs to it
      if (ftruncate(2, 0) != 0) {
        return 3;
      }
    }
    Ctx C(St, Out, Seed, I, Thorough, Only);
    Fn(C);
    ++St.Cases;
    if (C.Failed && St.Fails > 40) {
      break;
    }
  }
  std::string J = "{\"stats\":{\"cases\":" + std::to_string(St.Cases) +
                  ",\"fails\":" + std::to_string(St.Fails) + ",\"counters\":{";
  bool First = true;
  for (const auto &[K, V] : St.Counters) {
    J += (First ? "" : ",") + jsonStr(K) + ":" + std::to_string(V);
    First = false;
  }
  J += "},\"distinct\":[";
  First = true;
  for (auto H : St.Distinct) {
    J += (First ? "" : ",") + std::to_string(H);
    First = false;
  }
  J += "],\"samples\":[";
  First = true;
  for (const auto &S : St.Samples) {
    J += (First ? "" : ",") + jsonStr(show(S));
    First = false;
  }
  J += "]}}";
  std::fprintf(Out, "%s\n", J.c_str());
  std::fflush(Out);
  if (Out != stdout) {
    std::fclose(Out);
  }
  return St.Fails ? 1 : 0;
}

} // namespace vf

#endif
