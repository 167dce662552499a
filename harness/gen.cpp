#include <climits>
#include "gen.h"
#include <cmath>
#include <cstdio>
#include <typeinfo>
#include <cxxabi.h>
#include <algorithm>
#include <cfenv>
#include <limits>
#include <locale>

mpz_class pow2(unsigned long k) { mpz_class r; mpz_setbit(r.get_mpz_t(), k); return r; }

mpz_class zFromLimbs(const uint_array& v) {
    mpz_class r;
    if (!v.empty()) mpz_import(r.get_mpz_t(), v.size(), -1, 4, 0, 0, v.data());
    return r;
}
uint_array limbsOf(const mpz_class& v) {
    uint_array r((mpz_sizeinbase(v.get_mpz_t(), 2) + 31) / 32);
    size_t n = 0;
    if (v != 0) mpz_export(r.data(), &n, -1, 4, 0, 0, v.get_mpz_t());
    r.resize(n);
    return r;
}
mpz_class val(const BigInteger& x) {
    uint_array b = x.get_bits();
    if (b.empty()) return mpz_class(x.sign_internal());
    mpz_class m = zFromLimbs(b);
    return x.sign_internal() < 0 ? mpz_class(-m) : m;
}
byte_array magBytes(const mpz_class& v, bool bigEndian) {
    if (v == 0) return byte_array(1, 0);
    byte_array r((bitCount(v) + 7) / 8);
    size_t n = 0;
    mpz_export(r.data(), &n, bigEndian ? 1 : -1, 1, 0, 0, v.get_mpz_t());
    r.resize(n);
    return r;
}
byte_array twosBytes(const mpz_class& v, bool bigEndian) {
    size_t n; // bytes needed so that -2^(8n-1) <= v < 2^(8n-1)
    if (v >= 0) n = bitCount(v) / 8 + 1;
    else { mpz_class m = -v - 1; n = bitCount(m) / 8 + 1; }
    mpz_class u = v >= 0 ? v : mpz_class(v + pow2(8 * n));
    byte_array r(n, 0);
    size_t k = 0;
    if (u != 0) mpz_export(r.data(), &k, -1, 1, 0, 0, u.get_mpz_t());
    if (bigEndian) for (size_t i = 0; i < n / 2; i++) std::swap(r[i], r[n - 1 - i]);
    return r;
}
BigInteger make(const mpz_class& v) { return BigInteger(twosBytes(v)); }

BigInteger makeVia(const mpz_class& v, unsigned route) {
    switch (route) {
        case 1: return BigInteger(limbsOf(abs(v)), v < 0);
        case 2: return BigInteger(twosBytes(v, true), false, true);
        case 3: { // padded bytes
            byte_array b = twosBytes(v);
            b.insert(b.end(), 1 + b.size() % 5, v < 0 ? 0xff : 0);
            return BigInteger(b);
        }
        case 4: { // limbs with leading zero limbs
            uint_array l = limbsOf(abs(v));
            l.resize(l.size() + 1 + l.size() % 3, 0);
            return BigInteger(l, v < 0);
        }
        case 5: return limbCount(v) > 300 ? make(v) : BigInteger::parse(v.get_str()); // parse is quadratic
        case 6: { // unsigned magnitude bytes, then negate
            BigInteger m(magBytes(abs(v)), true);
            return v < 0 ? BigInteger::negate(m) : m;
        }
        case 7: { // native constructors where possible
            if (mpz_fits_slong_p(v.get_mpz_t())) return BigInteger(static_cast<int64_t>(v.get_si()));
            if (mpz_fits_ulong_p(v.get_mpz_t())) return BigInteger(static_cast<uint64_t>(v.get_ui()));
            return make(v);
        }
        // what other operations leave behind
        case 8: { BigInteger t(uint_array(limbCount(v) + 5, 7), true); t = make(v); return t; } // spare capacity
        case 9: { BigInteger t = make(v), u(std::move(t)); t = u; return t; }
        case 10: { // cancelling high limbs
            BigInteger k = make(pow2(32 * limbCount(v) + 40)), t = make(v);
            t += k; t -= k;
            return t;
        }
        case 11: { BigInteger t = make(v); t <<= 77; t >>= 77; return t; }
        case 12: { BigInteger t = make(v); BigInteger u = ~t; return ~u; }
        case 13: { // quotient and remainder of a division
            BigInteger t = make(v), m = make(pow2(32 * limbCount(v) + 1)), r;
            BigInteger::div_rem(t, m, r);
            return r;
        }
        default: return make(v);
    }
}
namespace {
struct Grouping : std::numpunct<char> {
    char do_thousands_sep() const override { return '\''; }
    char do_decimal_point() const override { return ','; }
    std::string do_grouping() const override { return "\3"; }
};
}
Ambient::Ambient(Ctx& c, unsigned n) {
    static const std::locale grouping(std::locale::classic(), new Grouping);
    if (c.s.oneIn(n)) { std::locale::global(grouping); locale = true; c.label("with digit grouping in the global locale"); }
    if (c.s.oneIn(n)) {
        static const int modes[] = {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
        rounding = fegetround();
        fesetround(c.s.pick(modes));
        c.label("with another floating-point rounding mode");
    }
}
Ambient::~Ambient() {
    if (locale) { std::locale::global(before); setlocale(LC_ALL, cLocale.c_str()); }
    if (rounding != -1) fesetround(rounding);
}

BigInteger makeAny(Ctx& c, const mpz_class& v) {
    unsigned r = c.s.u8();
    return makeVia(v, r < 192 ? 0 : r % ROUTES);
}

static const uint32_t kLimbs[] = {0, 1, 0xffffffffu, 0x80000000u, 0x7fffffffu, 2, 0xfffffffeu, 0x80000001u, 3, 0x10000u, 0xffffu,
                                  0xffff0000u, 0x55555555u, 0xaaaaaaaau, 0x40000000u, 0xc0000000u, 0x3fffffffu, 1000000000u,
                                  999999999u, 10, 0xffu, 0x100u, 0xff000000u, 0x00ffffffu, 0x80u, 0x8000u};
uint32_t genLimb(Source& s) {
    unsigned b = s.u8();
    if (b < 150) return kLimbs[b % (sizeof kLimbs / sizeof *kLimbs)];
    if (b < 175) return 1u << (s.u8() & 31);
    if (b < 190) { uint32_t x = 1u << (s.u8() & 31); return x - 1; }
    return s.u32();
}

mpz_class genSized(Source& s, size_t n) {
    uint_array l(n, 0);
    if (n == 0) return 0;
    switch (s.weighted({60, 70, 40, 20, 20, 20})) {
        case 0: for (auto& x : l) x = genLimb(s); break;
        case 1: { Rng r(s.u32()); for (auto& x : l) x = static_cast<uint32_t>(r.next() >> 16); break; }
        case 2: // runs of a repeated limb
            for (size_t i = 0; i < n;) { uint32_t v = genLimb(s); size_t k = 1 + s.below(n); while (k-- && i < n) l[i++] = v; }
            break;
        case 3: { // sparse
            for (unsigned k = 1 + s.below(4); k--;) l[s.below(n)] |= 1u << (s.u8() & 31);
            break;
        }
        case 4: { // all ones with holes
            for (auto& x : l) x = 0xffffffffu;
            for (unsigned k = s.below(4); k--;) l[s.below(n)] &= ~(1u << (s.u8() & 31));
            break;
        }
        default: { // random with special top and bottom limbs
            Rng r(s.u32()); for (auto& x : l) x = static_cast<uint32_t>(r.next() >> 16);
            l[n - 1] = genLimb(s); l[0] = genLimb(s); if (n > 1) l[n - 2] = genLimb(s);
        }
    }
    if (l[n - 1] == 0) l[n - 1] = 1;
    return zFromLimbs(l);
}

mpz_class genMag(Source& s, size_t maxLimbs) {
    size_t n;
    switch (s.weighted({14, 36, 62, 40, 28, 22, 28, 16, 4})) {
        case 0: return s.below(20);
        case 1: { // 2^k + d
            static const unsigned ks[] = {31, 32, 63, 64, 7, 8, 15, 16, 24, 33, 53, 62, 65, 95, 96, 127, 128, 160};
            unsigned long k = s.flag() ? ks[s.below(sizeof ks / sizeof *ks)] : s.below(maxLimbs * 32);
            if (k >= maxLimbs * 32) k = maxLimbs * 32 - 1;
            mpz_class r = pow2(k) + static_cast<long>(s.range(-3, 3));
            return abs(r);
        }
        case 2: n = 1 + s.below(2); break;
        case 3: n = 2 + s.below(3); break;
        case 4: n = 4 + s.below(5); break;
        case 5: n = 9 + s.below(19); break;
        case 6: n = 28 + s.below(13); break;
        case 7: n = 41 + s.below(100); break;
        default: n = 1 + s.below(maxLimbs); break;
    }
    if (n > maxLimbs) n = 1 + n % maxLimbs;
    return genSized(s, n);
}
mpz_class genInt(Source& s, size_t maxLimbs) {
    mpz_class m = genMag(s, maxLimbs);
    return s.flag() ? mpz_class(-m) : m;
}
static mpz_class fillLarge(Source& s, size_t n) {
    uint_array l(n, 0);
    Rng r(s.u32());
    unsigned kind = s.weighted({80, 40, 40, 40});
    for (auto& x : l) {
        uint64_t z = r.next();
        x = kind == 0 ? static_cast<uint32_t>(z >> 16) : kind == 1 ? 0xffffffffu : kind == 2 ? 0 : (z & 3) ? kLimbs[(z >> 8) % (sizeof kLimbs / sizeof *kLimbs)] : static_cast<uint32_t>(z >> 16);
    }
    for (unsigned k = s.below(4); k--;) l[s.below(n)] = genLimb(s);
    if (s.flag()) l[0] = genLimb(s);
    if (s.flag()) l[n - 1] = genLimb(s);
    if (l[n - 1] == 0) l[n - 1] = 1 + s.below(3);
    mpz_class m = zFromLimbs(l);
    return s.flag() ? mpz_class(-m) : m;
}
mpz_class genLarge(Source& s, size_t lo, size_t hi) {
    size_t n = lo;
    while (n < hi && s.below(8) != 0) n += n / 4 + 1; // 2^k-ish steps, then anywhere within the last one
    if (n > hi) n = hi;
    n -= s.below(n / 5 + 1);
    return fillLarge(s, n);
}
mpz_class genHuge(Source& s) { // around the sizes where 16-bit counts of limbs, bytes or bits end, and beyond
    static const size_t around[] = {65536, 16384, 32768, 2048, 4096, 8192};
    size_t n = s.flag() ? s.pick(around) + static_cast<size_t>(s.below(5)) - 2 : 1000 + s.below(69000);
    return fillLarge(s, n);
}
mpz_class genIntL(Source& s, size_t usual, size_t hi, unsigned n) {
    if (s.oneIn(n)) return s.oneIn(60) ? genHuge(s) : genLarge(s, usual / 2 + 1, hi);
    return genInt(s, usual);
}
mpz_class genNative(Source& s) {
    static const unsigned ks[] = {31, 32, 63, 64, 0, 7, 8, 15, 16, 24, 30, 33, 52, 53, 54, 62, 65, 96};
    switch (s.weighted({90, 60, 50, 56})) {
        case 0: { mpz_class r = pow2(s.pick(ks)) + static_cast<long>(s.range(-2, 2)); return s.flag() ? mpz_class(-r) : r; }
        case 1: { mpz_class r = s.u32(); return s.flag() ? mpz_class(-r) : r; }
        case 2: { mpz_class r = static_cast<unsigned long>(s.u64()); return s.flag() ? mpz_class(-r) : r; }
        default: return genInt(s, 4);
    }
}

mpz_class genRelated(Source& s, const mpz_class& a, size_t maxLimbs) {
    switch (s.weighted({96, 16, 16, 18, 18, 16, 16, 16, 14, 14, 16})) {
        case 0: return genInt(s, maxLimbs);
        case 10: { // look-alikes: what a hash, a checksum or a glance at the ends takes for the same value
            uint_array l = limbsOf(a);
            size_t n = l.size();
            if (n < 2) return -a;
            size_t i = 1 + s.below(n - 1), j = s.below(n);
            switch (s.below(7)) {
                case 0: { uint32_t m = genLimb(s); l[i] ^= m; l[i - 1] ^= m << 7 | m >> 25; break; } // the same hash code
                case 1: std::swap(l[i], l[j]); break;
                case 2: for (size_t k = 0; k < n / 2; k++) std::swap(l[k], l[n - 1 - k]); break;
                case 3: l.insert(l.begin(), 1 + s.below(3), 0); break;
                case 4: l.erase(l.begin(), l.begin() + static_cast<long>(i)); break;
                case 5: { mpz_class low = genSized(s, i); uint_array w = limbsOf(low); std::copy(w.begin(), w.end(), l.begin()); break; } // the same high limbs
                default: { mpz_class high = genSized(s, n - i); uint_array w = limbsOf(high); l.resize(i); l.insert(l.end(), w.begin(), w.end()); } // the same low limbs
            }
            mpz_class r = zFromLimbs(l);
            return (a < 0) != s.oneIn(4) ? mpz_class(-r) : r;
        }
        case 1: return a;
        case 2: return -a;
        case 3: return a + static_cast<long>(s.range(-2, 2));
        case 4: return static_cast<long>(s.range(-2, 2)) - a;
        case 5: { // same magnitude size, differing in one limb
            uint_array l = limbsOf(a);
            if (l.empty()) return 1;
            l[s.below(l.size())] = genLimb(s);
            mpz_class r = zFromLimbs(l);
            return s.flag() ? mpz_class(-r) : r;
        }
        case 6: { size_t n = limbCount(a); mpz_class r = genSized(s, n ? n : 1); return s.flag() ? mpz_class(-r) : r; }
        case 7: { // complement to a power of the limb base: carries run all the way
            mpz_class r = pow2(32 * limbCount(a)) - abs(a) + static_cast<long>(s.range(-1, 1));
            return s.flag() ? mpz_class(-r) : r;
        }
        case 8: { mpz_class r = a >> static_cast<unsigned long>(s.below(bitCount(a) + 1)); return s.flag() ? mpz_class(-r) : r; }
        default: return ~a;
    }
}

mpz_class genCorner(Source& s) {
    static const unsigned ks[] = {31, 32, 63, 64, 15, 62, 96, 128};
    unsigned c = s.below(64); // few enough that every pair comes up often
    if (c < 8) return static_cast<long>(c < 5 ? c : c - 8); // 0 .. 4, -3 .. -1
    if (c < 16) return static_cast<long>(c & 1 ? 1 : -1);
    c -= 16;
    mpz_class r = pow2(ks[c % 8]) + static_cast<long>(c / 8 % 3) - 1;
    return c >= 24 ? mpz_class(-r) : r;
}

double genDouble(Source& s) {
    uint64_t u;
    switch (s.weighted({60, 60, 60, 40, 20, 16})) {
        case 0: { double d = static_cast<double>(static_cast<int32_t>(s.u32())); return s.flag() ? d / 4 : d; }
        case 1: { // exponent near something interesting, mantissa special
            static const int es[] = {0, 1, -1, 31, 32, 33, 52, 53, 54, 63, 64, 65, 95, 96, 11, 12, 127, 128, 1023, 1022, 84, 85, 116, 117};
            int e = s.pick(es) + static_cast<int>(s.range(-1, 1));
            if (e > 1023) e = 1023;
            uint64_t m = s.flag() ? 0 : s.flag() ? 0xfffffffffffffull : s.u64() & 0xfffffffffffffull;
            u = static_cast<uint64_t>(e + 1023) << 52 | m;
            break;
        }
        case 2: u = static_cast<uint64_t>(s.below(1200) + 1000) << 52; if (u >= 0x7ff0000000000000ull) u = 0x7fe0000000000000ull; u |= s.u64() & 0xfffffffffffffull; break;
        case 3: u = s.u64() & 0x7fffffffffffffffull; if (u >= 0x7ff0000000000000ull) u &= 0x7fe7ffffffffffffull; break;
        case 4: u = s.u64() & 0xfffffffffffffull; break; // zero / denormal
        default: { static const uint64_t sp[] = {0, 0x3fe0000000000000ull, 0x3fefffffffffffffull, 0x3ff0000000000000ull, 0x7fefffffffffffffull, 0x0010000000000000ull, 0x41dfffffffc00000ull, 0x41e0000000000000ull, 0x43e0000000000000ull, 0x43f0000000000000ull, 0x43dfffffffffffffull, 0x43efffffffffffffull}; u = s.pick(sp); }
    }
    if (s.flag()) u |= 0x8000000000000000ull;
    double d; memcpy(&d, &u, 8);
    return d;
}

std::string showZ(const mpz_class& v) {
    mpz_class m = abs(v);
    if (m < 1000000) return v.get_str();
    return std::string(v < 0 ? "-" : "") + "0x" + m.get_str(16);
}

void expectValue(Ctx& c, const char* what, const BigInteger& got, const mpz_class& want) {
    mpz_class g = val(got);
    if (g != want) c.fail(std::string(what) + ": expected " + showZ(want) + ", got " + showZ(g));
    BigInteger fresh = make(want);
    if (!(got == fresh) || !(fresh == got) || got != fresh)
        c.fail(std::string(what) + ": result denotes " + showZ(want) + " but does not compare equal to a freshly built " + showZ(want));
    if (got.get_hash_code() != fresh.get_hash_code())
        c.fail(std::string(what) + ": result equals a fresh " + showZ(want) + " but hashes differently");
    c.digest = c.digest * 31 + static_cast<uint32_t>(got.get_hash_code());
}

void sizeLabels(Ctx& c, const char* who, const mpz_class& v) {
    if (!c.labels) return;
    size_t n = limbCount(v);
    const char* b = v == 0 ? "0" : !isBig(v) ? "int31" : n == 1 ? "1 limb" : n == 2 ? "2 limbs" : n <= 4 ? "3-4 limbs" : n <= 12 ? "5-12 limbs" : n < 32 ? "13-31 limbs" : n < 64 ? "32-63 limbs" : n < 128 ? "64-127 limbs" : n < 256 ? "128-255 limbs" : n < 1000 ? "256-999 limbs" : n < 5000 ? "1000-4999 limbs" : n < 65536 ? "5000-65535 limbs" : ">=65536 limbs";
    c.label(std::string(who) + " size " + b);
    if (v < 0) c.label(std::string(who) + " negative");
}

std::string exName(const std::exception& e) {
    int st = 0;
    char* d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    std::string r = d ? d : typeid(e).name();
    free(d);
    return r + "(" + e.what() + ")";
}

// ---- Ctx
void Ctx::in(const char* name, const mpz_class& v) {
    int sg = sgn(v);
    mix(name, 1); mix(&sg, sizeof sg);
    mix(mpz_limbs_read(v.get_mpz_t()), mpz_size(v.get_mpz_t()) * sizeof(mp_limb_t));
    if (describe) desc += std::string(" ") + name + "=" + showZ(v);
}
void Ctx::inD(const char* name, double v) {
    mix(&v, sizeof v);
    if (describe) { char b[64]; snprintf(b, sizeof b, " %s=%a(%.17g)", name, v, v); desc += b; }
}
void Ctx::inText(const char* name, const std::string& v) {
    mix(v.data(), v.size());
    if (describe) {
        desc += std::string(" ") + name + "=\"";
        for (unsigned char ch : v) { if (ch >= 32 && ch < 127 && ch != '"' && ch != '\\') desc += static_cast<char>(ch); else { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); desc += b; } }
        desc += "\"";
    }
}
void Ctx::inBytes(const char* name, const std::vector<unsigned char>& v) {
    mix(v.data(), v.size());
    if (describe) desc += std::string(" ") + name + "=" + hexOf(v.data(), v.size());
}
void Ctx::out(const std::string& v) {
    for (unsigned char ch : v) digest = (digest ^ ch) * 1099511628211ull;
    if (describe) trace += v + "\n";
}
std::string hexOf(const uint8_t* p, size_t n) {
    static const char d[] = "0123456789abcdef";
    std::string r;
    r.reserve(n * 2);
    for (size_t i = 0; i < n; i++) { r += d[p[i] >> 4]; r += d[p[i] & 15]; }
    return r;
}

#ifdef GIANT
Giant genGiant(Ctx& c) {
    Source& s = c.s;
    mpz_class top = genInt(s, 2), low = s.oneIn(2) ? mpz_class(0) : genMag(s, 2);
    if (top == 0) top = 1;
    if (s.oneIn(2)) top = top < 0 ? -1 : 1;
    if (top < 0) low = -low;
    int64_t n = (int64_t(1) << 31) + s.range(-70, 40);
    c.op("giant"); c.in("top", top); c.in("low", low); c.in("shift", n);
    c.label("about 2^31 bits");
    Giant g;
    mpz_mul_2exp(g.v.get_mpz_t(), top.get_mpz_t(), static_cast<mp_bitcnt_t>(n));
    g.v += low;
    g.V = make(top);
    int k = static_cast<int>(std::min<int64_t>(n, INT_MAX));
    g.V <<= k;
    if (n > k) g.V <<= static_cast<int>(n - k);
    g.V += make(low);
    c.nontrivial = true;
    return g;
}
#endif
