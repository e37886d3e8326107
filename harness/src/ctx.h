#pragma once
// Exploration context: case enumeration, sharding, replay, counters, failure records.
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

struct Failure {
    std::string key, caseId, msg;
};

class Ctx {
  public:
    std::string prop, tier = "quick", replay;
    int shard = 0, nshards = 1;
    uint64_t cases = 0, enumerated = 0, transitions = 0, validated = 0;
    std::vector<Failure> failures;
    std::map<std::string, uint64_t> failureCount;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> dims;  // per-dimension counters reported as evidence
    bool quick() const { return tier == "quick"; }
    bool thorough() const { return tier != "quick"; }
    // Runs `body` as one enumerated execution. Exceptions escaping the code under test are failures of
    // the property ("<key>" = exception) because every enumerated case is a valid use.
    void run(const std::string& id, const std::function<void()>& body);
    // Reports a violated condition in the current case. `key` names the kind of violation.
    void fail(const std::string& key, const std::string& msg);
    // Convenience: check a condition
    bool check(bool ok, const std::string& key, const std::function<std::string()>& msg) {
        if (!ok) fail(key, msg());
        return ok;
    }
    void state(uint64_t h) { _states.insert(h); }
    uint64_t stateCount() const { return _states.size(); }
    const std::unordered_set<uint64_t>& stateSet() const { return _states; }
    void openProgress(const std::string& path);
    const std::string& current() const { return _current; }

  private:
    std::unordered_set<uint64_t> _states;
    std::string _current;
    char* _progress = nullptr;
};

struct Hasher {
    uint64_t h = 1469598103934665603ull;
    void u(uint64_t v) {
        h ^= v;
        h *= 1099511628211ull;
        h ^= h >> 29;
    }
    void d(double v) {
        if (v == 0) v = 0;
        uint64_t b;
        static_assert(sizeof(b) == sizeof(v));
        __builtin_memcpy(&b, &v, 8);
        u(b);
    }
    void s(const std::string& v) {
        for (char c : v) u((unsigned char)c);
        u(0x5eb);
    }
};

using PropFn = void (*)(Ctx&);
struct PropReg {
    PropReg(const char* id, PropFn f);
};
std::map<std::string, PropFn>& propRegistry();
#define PROPERTY(ID)                            \
    static void prop_##ID(Ctx& ctx);            \
    static PropReg reg_##ID(#ID, prop_##ID);    \
    static void prop_##ID(Ctx& ctx)

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
