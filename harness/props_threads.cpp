// C21: threads that share only constant objects (or share nothing) do not disturb one another.
#include "gen.h"
#include "exceptions.h"
#include <atomic>
#include <chrono>
#include <cmath>
#include <functional>
#include <memory>
#include <thread>

namespace {
struct Step { unsigned op; size_t x, y; int k; mpz_class want; std::string text; };
const char* const opNames[] = {"x+y", "x-y", "x*y", "x/y", "x%y", "x&y", "x|y", "x^y", "x<<k", "x>>k", "to_string", "bytes", "compare", "hash", "gcd", "mod_pow", "pow", "log", "parse", "queries", "x==y", "copy and mutate", "negate", "double", "native",
    "div_rem", "in-place on a copy", "log10", "log base", "limbs", "bit operators on a copy", "errors", "constants", "try_parse", "squares", "float", "long exponent"};
constexpr unsigned OPS = sizeof opNames / sizeof *opNames;

mpz_class model(const Step& st, const std::vector<mpz_class>& v) {
    const mpz_class &x = v[st.x], &y = v[st.y];
    mpz_class r;
    switch (st.op) {
        case 0: return x + y; case 1: return x - y; case 2: return x * y;
        case 3: if (y == 0) return 0; mpz_tdiv_q(r.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); return r;
        case 4: if (y == 0) return 0; mpz_tdiv_r(r.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); return r;
        case 5: return x & y; case 6: return x | y; case 7: return x ^ y;
        case 8: return x << st.k;
        case 9: mpz_fdiv_q_2exp(r.get_mpz_t(), x.get_mpz_t(), st.k); return r;
        case 14: return gcd(x, y);
        case 15: { if (y == 0) return 0; mpz_class ax = abs(x), ay = abs(y); mpz_powm_ui(r.get_mpz_t(), ax.get_mpz_t(), st.k, ay.get_mpz_t()); if (x < 0 && st.k % 2) r = -r; return r; }
        case 16: mpz_pow_ui(r.get_mpz_t(), x.get_mpz_t(), st.k % 4); return r;
        case 21: return x * y + y;
        case 22: return -x;
        case 25: if (y == 0) return 0; mpz_tdiv_r(r.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); return r;
        case 26: { mpz_class a = (x * 3 + y) << st.k; if (y != 0) mpz_tdiv_q(r.get_mpz_t(), a.get_mpz_t(), y.get_mpz_t()); else r = a; return r - x; }
        case 30: { mpz_class a = (x & y) | (x ^ static_cast<long>(st.k)); return ~a; }
        case 34: { mpz_class q = x * x; return limbCount(x) < 60 ? mpz_class(q * q) : q; }
        case 36: { if (y == 0) return 0; mpz_class ax = abs(x), ay = abs(y), e = (pow2(70) + st.k); mpz_powm(r.get_mpz_t(), ax.get_mpz_t(), e.get_mpz_t(), ay.get_mpz_t()); if (x < 0 && st.k % 2) r = -r; return r; }
        default: return x;
    }
}
// returns what was wrong, or ""
std::string perform(const Step& st, const std::vector<BigInteger>& v, const std::vector<mpz_class>& m) {
    const BigInteger &x = v[st.x], &y = v[st.y];
    BigInteger r;
    bool value = true;
    switch (st.op) {
        case 0: r = x + y; break; case 1: r = x - y; break; case 2: r = x * y; break;
        case 3: case 4:
            try { r = st.op == 3 ? x / y : x % y; if (m[st.y] == 0) return "no DivideByZero"; }
            catch (const DivideByZero&) { if (m[st.y] != 0) return "DivideByZero with a non-zero divisor"; value = false; }
            break;
        case 5: r = x & y; break; case 6: r = x | y; break; case 7: r = x ^ y; break;
        case 8: r = x << st.k; break; case 9: r = x >> st.k; break;
        case 10: if (x.to_string() != st.text) return "to_string"; value = false; break;
        case 11: r = BigInteger(x.to_byte_array(false, st.k & 1), false, st.k & 1); break;
        case 12: { int g = x.compare_to(y), w = cmp(m[st.x], m[st.y]); if ((g > 0) - (g < 0) != (w > 0) - (w < 0)) return "compare_to"; value = false; break; }
        case 13: if (x.get_hash_code() != BigInteger(x).get_hash_code()) return "hash"; value = false; break;
        case 14: r = BigInteger::greatest_common_divisor(x, y); break;
        case 15: if (m[st.y] == 0) { value = false; break; } r = BigInteger::mod_pow(x, BigInteger(st.k), y); break;
        case 16: r = BigInteger::pow(x, st.k % 4); break;
        case 17: { BigInteger p = x; p = BigInteger::abs(p); double a = BigInteger::log(p), b = BigInteger::log(p); if (!(a == b)) return "log"; value = false; break; }
        case 18: r = BigInteger::parse(st.text); break;
        case 19: if (x.is_zero() != (m[st.x] == 0) || x.is_even() != !mpz_odd_p(m[st.x].get_mpz_t()) || x.sign() != sgn(m[st.x]) || x.get_byte_count() != static_cast<int>(x.to_byte_array().size())) return "queries"; x.is_power_of_two(); x.get_bit_length(); x.is_one(); value = false; break;
        case 20: if ((x == y) != (m[st.x] == m[st.y])) return "equality"; value = false; break;
        case 21: { BigInteger p = x; p *= y; p += y; ++p; --p; r = p; break; }
        case 22: r = BigInteger::negate(x); break;
        case 23: { BigInteger p = x; double d = p.operator double(); BigInteger q(x); if (!(d == q.operator double())) return "double"; value = false; break; }
        case 24: { BigInteger p(static_cast<int64_t>(INT32_MIN) * (1 + st.k % 3)); BigInteger q(INT32_MIN); p += q; p -= q; if (val(p) != mpz_class(static_cast<long>(INT32_MIN) * (1 + st.k % 3))) return "native"; value = false; break; }
        case 25: { if (m[st.y] == 0) { value = false; break; } BigInteger p(x), q(y), rem; BigInteger quo = BigInteger::div_rem(p, q, rem); if (!(quo * y + rem == x)) return "div_rem"; r = rem; break; }
        case 26: { BigInteger p(x); p *= 3; p += y; p <<= st.k; if (m[st.y] != 0) p /= y; p -= x; r = p; break; }
        case 27: { double a = BigInteger::log10(x), b = BigInteger::log10(BigInteger(x)); if (!(a == b || (std::isnan(a) && std::isnan(b)))) return "log10"; value = false; break; }
        case 28: { double a = BigInteger::log(x, 2.0 + st.k), b = BigInteger::log(BigInteger(x), 2.0 + st.k); if (!(a == b || (std::isnan(a) && std::isnan(b)))) return "log base"; value = false; break; }
        case 29: r = BigInteger(x.get_bits(), m[st.x] < 0); if (!isBig(m[st.x])) r = x; x.to_uint32_array(); break;
        case 30: { BigInteger p(x), q(x); p &= y; q ^= BigInteger(st.k); p |= q; r = ~p; break; }
        case 31: {
            BigInteger p(x), z;
            try { p /= z; return "no DivideByZero"; } catch (const DivideByZero&) {}
            try { BigInteger::mod_pow(x, y, z); if (m[st.y] >= 0) return "no DivideByZero"; } catch (const DivideByZero&) {} catch (const std::out_of_range&) {}
            try { BigInteger::pow(x, -1 - st.k); return "no out_of_range"; } catch (const std::out_of_range&) {}
            try { (void)p.operator int(); } catch (const std::overflow_error&) {}
            r = p; break;
        }
        case 32: r = x * BigInteger::one() + BigInteger::zero() - BigInteger::minus_one(); r += BigInteger::minus_one(); break;
        case 33: { BigInteger p(st.k); if (!BigInteger::try_parse(st.text, p)) return "try_parse"; r = p; break; }
        case 34: { BigInteger p(x); p *= p; r = limbCount(m[st.x]) < 60 ? BigInteger::pow(x, 4) : p; if (limbCount(m[st.x]) < 60 && !(p * p == r)) return "square"; break; }
        case 35: { BigInteger p(x), q(x); float d = p.operator float(); if (!(d == q.operator float())) return "float"; value = false; break; }
        default: if (m[st.y] == 0) { value = false; break; } r = BigInteger::mod_pow(x, (BigInteger(1) << 70) + BigInteger(st.k), y);
    }
    if (value) { mpz_class g = val(r); if (g != st.want) return std::string(opNames[st.op]) + " gave " + showZ(g) + " instead of " + showZ(st.want); }
    return "";
}
}

PROPERTY(C21, "2 to 4 threads, started together, each performing up to 12 random operations on 4 shared constant objects (and private copies), under ThreadSanitizer, or up to 3 each repeated for 8 ms in an optimised build, each result compared with GMP; non-trivial when at least two threads run and share an object with limbs") {
    Source& s = c.s;
    std::vector<mpz_class> m;
    std::vector<BigInteger> v;
    bool big = false;
    for (int i = 0; i < 4; i++) { m.push_back(genInt(s, s.oneIn(3) ? s.oneIn(10) ? 300 : 80 : 10)); c.in("shared", m[i]); v.push_back(makeAny(c, m[i])); big = big || limbCount(m[i]) >= 2; }
    size_t nt = 2 + s.below(3);
#ifdef STRESS
    const bool stress = true; // few operations, each repeated thousands of times
#else
    const bool stress = false;
#endif
    int theme = s.flag() || (stress && s.flag()) ? static_cast<int>(s.below(OPS)) : -1;
    std::vector<std::vector<Step>> plan(nt);
    const bool alike = s.flag();                    // all threads begin with the same call: the first of its kind in the process
    const bool once = stress && s.below(4) != 0;
    for (auto& p : plan) {
        size_t n = 1 + s.below(stress ? 3 : 12);
        if (c.describe) c.desc += "; thread:";
        for (size_t i = 0; i < n; i++) {
            Step st;
            st.op = theme >= 0 && s.flag() ? static_cast<unsigned>(theme) : static_cast<unsigned>(s.below(OPS));
            st.x = s.below(4); st.y = s.below(4); st.k = static_cast<int>(s.below(100));
            if (limbCount(m[st.x]) + limbCount(m[st.y]) > 160 && (st.op == 14 || st.op == 15 || st.op == 16 || st.op == 36 || st.op == 18 || st.op == 33)) st.op = 2; // too slow here
            if (alike && i == 0 && !plan[0].empty()) { st.op = plan[0][0].op; st.x = plan[0][0].x; st.y = plan[0][0].y; st.k = plan[0][0].k; }
            st.want = model(st, m);
            st.text = m[st.x].get_str();
            c.mix(&st.op, sizeof st.op); c.mix(&st.x, sizeof st.x); c.mix(&st.y, sizeof st.y); c.mix(&st.k, sizeof st.k);
            c.label(opNames[st.op]);
            if (c.describe) c.desc += std::string(" ") + opNames[st.op] + "(" + std::to_string(st.x) + "," + std::to_string(st.y) + "," + std::to_string(st.k) + ")";
            p.push_back(st);
        }
    }
    const std::vector<BigInteger>& cv = v;
    std::vector<std::string> wrong(nt);
    std::atomic<size_t> ready{0};
    std::atomic<bool> any{false};
    std::vector<std::thread> ts;
    for (size_t t = 0; t < nt; t++) ts.emplace_back([&, t] {
        ready++;
        for (unsigned spins = 0; ready.load() < nt; spins++) if (!stress || spins > 3000) std::this_thread::yield();
        const auto end = std::chrono::steady_clock::now() + std::chrono::duration<double>(stressSeconds);
        do {
            for (auto& st : plan[t]) { std::string w; try { w = perform(st, cv, m); } catch (const std::exception& e) { w = exName(e); } if (!w.empty() && wrong[t].empty()) { wrong[t] = w; any = true; } }
        } while (stress && !once && !any && std::chrono::steady_clock::now() < end);
    });
    for (auto& t : ts) t.join();
    for (size_t t = 0; t < nt; t++) if (!wrong[t].empty()) c.fail("thread " + std::to_string(t) + ": " + wrong[t]);
    for (int i = 0; i < 4; i++) if (val(v[i]) != m[i]) c.fail("a shared constant object changed");
    c.nontrivial = big;
}
