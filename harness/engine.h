// Choice-sequence property-based-testing engine (after Hypothesis): every random decision of a case is a byte
// drawn from a Source.  The same byte string replays the case, is what the shrinker reduces, and is what
// libFuzzer mutates.
#pragma once
extern double stressSeconds; // how long a case of the stress build repeats its operations
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <map>
#include <string>
#include <vector>
#include <gmpxx.h>

struct Rng { // splitmix64
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
};

static constexpr size_t CHOICE_CAP = 1 << 14;

class Source {
public:
    // live: draw from rng and record into rec;  replay: read in[0..n) then zeros
    Source(uint64_t seed, uint8_t* rec, volatile uint32_t* recLen) : live_(true), rng_(seed), rec_(rec), recLen_(recLen) {
        if (recLen_) *recLen_ = 0;
    }
    Source(const uint8_t* in, size_t n) : live_(false), in_(in), n_(n) {}

    uint8_t u8() {
        if (live_) {
            if (pos_ >= CHOICE_CAP) return 0;
            if (left_ == 0) { buf_ = rng_.next(); left_ = 8; }
            uint8_t b = static_cast<uint8_t>(buf_);
            buf_ >>= 8; left_--;
            if (rec_) { rec_[pos_] = b; pos_++; *recLen_ = pos_; } else pos_++;
            return b;
        }
        return pos_ < n_ ? in_[pos_++] : (pos_++, 0);
    }
    uint32_t u16() { uint32_t v = u8(); return v << 8 | u8(); }
    uint32_t u32() { uint32_t v = u16(); return v << 16 | u16(); }
    uint64_t u64() { uint64_t v = u32(); return v << 32 | u32(); }
    // 0 <= result < n; smaller bytes give smaller results
    uint64_t below(uint64_t n) {
        if (n <= 1) return 0;
        if (n <= 256) return u8() % n;
        if (n <= 65536) return u16() % n;
        if (n <= 0xffffffffull) return u32() % n;
        return u64() % n;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1)); }
    bool flag() { return u8() & 1; }
    bool oneIn(unsigned n) { return below(n) == n - 1; } // byte 0 => false
    // weighted choice, first entries are the simplest
    unsigned weighted(std::initializer_list<unsigned> w) {
        unsigned total = 0;
        for (auto x : w) total += x;
        unsigned r = total <= 256 ? u8() % total : u16() % total, i = 0;
        for (auto x : w) { if (r < x) return i; r -= x; i++; }
        return 0;
    }
    template <class T, size_t N> const T& pick(const T (&t)[N]) { return t[below(N)]; }
    size_t consumed() const { return pos_; }
    Source again(size_t from) const { // the choices made since then, once more
        const uint8_t* b = live_ ? rec_ : in_;
        size_t n = live_ ? (pos_ < CHOICE_CAP ? pos_ : CHOICE_CAP) : n_;
        return from < n ? Source(b + from, n - from) : Source(b, 0);
    }

private:
    bool live_;
    Rng rng_;
    uint8_t* rec_ = nullptr;
    volatile uint32_t* recLen_ = nullptr;
    const uint8_t* in_ = nullptr;
    size_t n_ = 0, pos_ = 0;
    uint64_t buf_ = 0;
    int left_ = 0;
};

struct Fail { std::string msg; };

class Ctx {
public:
    Source& s;
    bool describe;
    bool nontrivial = false;
    uint64_t hash = 1469598103934665603ull;
    std::string desc;
    std::map<std::string, uint64_t>* labels = nullptr;
    uint64_t digest = 0; // digest of observable results (used for cross-build comparison)
    std::string trace;   // the same, readable

    Ctx(Source& src, bool d) : s(src), describe(d) {}

    void mix(const void* p, size_t n) {
        auto c = static_cast<const uint8_t*>(p);
        for (size_t i = 0; i < n; i++) hash = (hash ^ c[i]) * 1099511628211ull;
    }
    void op(const char* name) { mix(name, strlen(name)); label(name); if (describe) { desc += desc.empty() ? "" : "; "; desc += name; } }
    void in(const char* name, const mpz_class& v);
    void in(const char* name, int64_t v) { mix(&v, sizeof v); if (describe) desc += std::string(" ") + name + "=" + std::to_string(v); }
    void inD(const char* name, double v);
    void inText(const char* name, const std::string& v);
    void inBytes(const char* name, const std::vector<unsigned char>& v);
    void label(const std::string& l) { if (labels) (*labels)[l]++; }
    void out(const std::string& v); // observable result
    [[noreturn]] void fail(const std::string& m) { throw Fail{m}; }
};

#define REQUIRE(ctx, cond, ...) do { if (!(cond)) (ctx).fail(std::string(__VA_ARGS__) + " [" #cond "]"); } while (0)

struct Prop {
    const char* id;
    const char* rule;  // what a case is and when it is non-trivial
    void (*fn)(Ctx&);
};
const std::vector<Prop>& allProps();
const Prop* findProp(const std::string& id);
struct Register { Register(const char* id, const char* rule, void (*fn)(Ctx&)); };
#define PROPERTY(ID, RULE) static void run_##ID(Ctx&); static Register reg_##ID(#ID, RULE, run_##ID); static void run_##ID(Ctx& c)

std::string hexOf(const uint8_t* p, size_t n);
std::string showZ(const mpz_class& v);
