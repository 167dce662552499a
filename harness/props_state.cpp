// C17, C18: histories over a pool of objects (value semantics), domain errors.
#include "gen.h"
#include "exceptions.h"
#include <algorithm>
#include <cmath>
#include <stdexcept>
#include <type_traits>
#include <utility>

namespace {
constexpr size_t POOL = 5;
struct Pool {
    Ctx& c;
    std::vector<BigInteger> o;
    std::vector<mpz_class> m;
    explicit Pool(Ctx& ctx) : c(ctx), o(POOL), m(POOL) {}
    void check(const char* after) {
        for (size_t i = 0; i < o.size(); i++) {
            mpz_class g = val(o[i]);
            if (g != m[i]) c.fail(std::string("after ") + after + ": object " + std::to_string(i) + " should be " + showZ(m[i]) + ", is " + showZ(g));
        }
    }
    void canonical(size_t i, const char* after) {
        BigInteger fresh = make(m[i]);
        if (!(o[i] == fresh) || o[i].get_hash_code() != fresh.get_hash_code() || o[i].compare_to(fresh) != 0)
            c.fail(std::string("after ") + after + ": object " + std::to_string(i) + " does not compare/hash as a fresh " + showZ(m[i]));
    }
};
}

PROPERTY(C17, "a history of 3 to 40 operations on a pool of 5 objects (in-place operators with any target/operand aliasing, static functions, copies, moves, swaps, conversions, calls that throw), all objects compared with a model after every step; non-trivial when at least 5 operations ran and an object with two or more limbs was involved") {
    Source& s = c.s;
    Ambient ambient(c, 40);
    Pool p(c);
    bool large = s.oneIn(60);
    if (large) c.label("large objects");
    for (size_t i = 0; i < POOL; i++) { p.m[i] = large ? genLarge(s, 20, 250) : s.oneIn(6) ? genCorner(s) : i && s.oneIn(3) ? genRelated(s, p.m[s.below(i)], 8) : genInt(s, 8); c.in("init", p.m[i]); p.o[i] = makeAny(c, p.m[i]); }
    unsigned steps = 3 + s.below(38), done = 0;
    bool big = false;
    for (unsigned step = 0; step < steps; step++) {
        size_t t = s.below(POOL), x = s.below(POOL), y = s.below(POOL);
        unsigned op = s.below(52);
        BigInteger &T = p.o[t], &X = p.o[x], &Y = p.o[y];
        mpz_class &mt = p.m[t], &mx = p.m[x], &my = p.m[y];
        static const char* names[] = {"t+=x", "t-=x", "t*=x", "t/=x", "t%=x", "t&=x", "t|=x", "t^=x", "t<<=k", "t>>=k", "++t", "--t", "t++", "t--",
            "t=x+y", "t=x-y", "t=x*y", "t=x/y", "t=x%y", "t=-x", "t=~x", "t=abs(x)", "t=div_rem(x,y,.)", "div_rem(x,y,t)", "t=x", "move", "swap",
            "t=gcd(x,y)", "t=pow(x,k)", "t=mod_pow(x,e,y)", "t=parse(x.to_string())", "t=BigInteger(x.to_byte_array())", "t=native", "t=x&y", "t=x|y", "t=x^y",
            "t/=0", "t=BigInteger(double(x))", "t=t+=x (chained)", "try_parse",
            "t=multiply(x,y)", "t=add(x,y)", "t=subtract(x,y)", "t=negate(x)", "y=div_rem(t,x,t)", "y=div_rem(x,t,t)", "t=BigInteger(x.get_bits())", "t=mod_pow(x,|y|,t)", "t=(t op x) op y", "t=look-alike of x", "t=x, changed in one limb", "const calls"};
        const char* name = names[op];
        c.op(name); c.in("t", static_cast<int64_t>(t)); c.in("x", static_cast<int64_t>(x)); c.in("y", static_cast<int64_t>(y));
        if (t == x) c.label("target aliases operand");
        size_t lim = large ? 300 : 40;
        if (limbCount(mx) + limbCount(my) + limbCount(mt) > 3 * lim) { // keep sizes bounded
            for (size_t i = 0; i < POOL; i++) {
                size_t n = limbCount(p.m[i]);
                int k = n > 60 ? static_cast<int>(32 * (n - (large ? n / 2 : 30))) : 32 * 30;
                p.o[i] >>= k; mpz_fdiv_q_2exp(p.m[i].get_mpz_t(), p.m[i].get_mpz_t(), k);
            }
            p.check("shifting everything right");
        }
        switch (op) {
            case 0: T += X; mt = mpz_class(mt + mx); break;
            case 1: T -= X; mt = mpz_class(mt - mx); break;
            case 2: T *= X; mt = mpz_class(mt * mx); break;
            case 3: case 4: {
                bool q = op == 3;
                try {
                    if (q) T /= X; else T %= X;
                    REQUIRE(c, mx != 0, "division by zero must throw");
                    mpz_class r;
                    if (q) mpz_tdiv_q(r.get_mpz_t(), mt.get_mpz_t(), mx.get_mpz_t()); else mpz_tdiv_r(r.get_mpz_t(), mt.get_mpz_t(), mx.get_mpz_t());
                    mt = r;
                } catch (const DivideByZero&) { REQUIRE(c, mx == 0, "DivideByZero with a non-zero divisor"); }
                break;
            }
            case 5: T &= X; mt = mpz_class(mt & mx); break;
            case 6: T |= X; mt = mpz_class(mt | mx); break;
            case 7: T ^= X; mt = mpz_class(mt ^ mx); break;
            case 8: { int k = static_cast<int>(s.range(-70, 140)); c.in("k", k); T <<= k; mpz_class r; if (k >= 0) mpz_mul_2exp(r.get_mpz_t(), mt.get_mpz_t(), k); else mpz_fdiv_q_2exp(r.get_mpz_t(), mt.get_mpz_t(), -k); mt = r; break; }
            case 9: { int k = static_cast<int>(s.range(-70, 140)); c.in("k", k); T >>= k; mpz_class r; if (k <= 0) mpz_mul_2exp(r.get_mpz_t(), mt.get_mpz_t(), -k); else mpz_fdiv_q_2exp(r.get_mpz_t(), mt.get_mpz_t(), k); mt = r; break; }
            case 10: ++T; mt = mt + 1; break;
            case 11: --T; mt = mt - 1; break;
            case 12: { BigInteger old = T++; mpz_class w = val(old); REQUIRE(c, w == mt, "t++ yields the old value"); mt = mt + 1; break; }
            case 13: { BigInteger old = T--; mpz_class w = val(old); REQUIRE(c, w == mt, "t-- yields the old value"); mt = mt - 1; break; }
            case 14: T = X + Y; mt = mpz_class(mx + my); break;
            case 15: T = X - Y; mt = mpz_class(mx - my); break;
            case 16: T = X * Y; mt = mpz_class(mx * my); break;
            case 17: case 18: {
                try {
                    if (op == 17) T = X / Y; else T = X % Y;
                    REQUIRE(c, my != 0, "division by zero must throw");
                    mpz_class r;
                    if (op == 17) mpz_tdiv_q(r.get_mpz_t(), mx.get_mpz_t(), my.get_mpz_t()); else mpz_tdiv_r(r.get_mpz_t(), mx.get_mpz_t(), my.get_mpz_t());
                    mt = r;
                } catch (const DivideByZero&) { REQUIRE(c, my == 0, "DivideByZero with a non-zero divisor"); }
                break;
            }
            case 19: T = -X; mt = mpz_class(-mx); break;
            case 20: T = ~X; mt = mpz_class(~mx); break;
            case 21: T = BigInteger::abs(X); mt = mpz_class(abs(mx)); break;
            case 22: case 23: {
                mpz_class q, r;
                try {
                    if (op == 22) { BigInteger R; T = BigInteger::div_rem(X, Y, R); REQUIRE(c, my != 0, "division by zero must throw"); mpz_tdiv_qr(q.get_mpz_t(), r.get_mpz_t(), mx.get_mpz_t(), my.get_mpz_t()); REQUIRE(c, val(R) == r, "remainder"); mt = q; }
                    else { BigInteger Q = BigInteger::div_rem(X, Y, T); REQUIRE(c, my != 0, "division by zero must throw"); mpz_tdiv_qr(q.get_mpz_t(), r.get_mpz_t(), mx.get_mpz_t(), my.get_mpz_t()); REQUIRE(c, val(Q) == q, "quotient with an aliased remainder"); mt = r; }
                } catch (const DivideByZero&) { REQUIRE(c, my == 0, "DivideByZero with a non-zero divisor"); }
                break;
            }
            case 24: T = X; mt = mpz_class(mx); break;
            case 25: { BigInteger tmp(std::move(X)); X = BigInteger(12345); T = std::move(tmp); mpz_class v = mx; mx = 12345; mt = v; break; }
            case 26: std::swap(T, X); if (t != x) std::swap(mt, mx); break;
            case 27: T = BigInteger::greatest_common_divisor(X, Y); mt = mpz_class(gcd(mx, my)); break;
            case 28: { int e = static_cast<int>(s.below(limbCount(mx) > 12 ? 3 : 6)); c.in("e", e); T = BigInteger::pow(X, e); mpz_class r; mpz_pow_ui(r.get_mpz_t(), mx.get_mpz_t(), e); mt = r; break; }
            case 29: {
                unsigned long e = s.u8(); c.in("e", static_cast<int64_t>(e));
                if (my == 0) break;
                T = BigInteger::mod_pow(X, BigInteger(static_cast<uint32_t>(e)), Y);
                mpz_class r, ax = abs(mx), ay = abs(my);
                mpz_powm_ui(r.get_mpz_t(), ax.get_mpz_t(), e, ay.get_mpz_t());
                if (mx < 0 && e % 2) r = -r;
                mt = r;
                break;
            }
            case 30: T = BigInteger::parse(X.to_string()); mt = mpz_class(mx); break;
            case 31: { bool be = s.flag(); T = BigInteger(X.to_byte_array(false, be), false, be); mt = mpz_class(mx); break; }
            case 32: { int64_t n = static_cast<int64_t>(s.u64()) >> s.below(64); T = n; mt = static_cast<long>(n); break; }
            case 33: T = X & Y; mt = mpz_class(mx & my); break;
            case 34: T = X | Y; mt = mpz_class(mx | my); break;
            case 35: T = X ^ Y; mt = mpz_class(mx ^ my); break;
            case 36: { bool threw = false; BigInteger z; try { if (y & 1) T /= z; else T %= z; } catch (const DivideByZero&) { threw = true; } REQUIRE(c, threw || mt != mt, "division by zero throws DivideByZero"); break; }
            case 37: { double d = X.operator double(); if (std::isinf(d)) { bool threw = false; try { T = BigInteger(d); } catch (const std::overflow_error&) { threw = true; } REQUIRE(c, threw, "infinity must be rejected"); } else { T = BigInteger(d); mpz_class r; mpz_set_d(r.get_mpz_t(), d); mt = r; } break; }
            case 38: (T += X) -= Y; mt = mpz_class(mt + mx); mt = mpz_class(mt - my); break;
            case 39: { bool ok = BigInteger::try_parse(mx.get_str(), T); REQUIRE(c, ok, "try_parse of digits"); mt = mpz_class(mx); break; }
            case 40: T = BigInteger::multiply(X, Y); mt = mpz_class(mx * my); break;
            case 41: T = BigInteger::add(X, Y); mt = mpz_class(mx + my); break;
            case 42: T = BigInteger::subtract(X, Y); mt = mpz_class(mx - my); break;
            case 43: T = BigInteger::negate(X); mt = mpz_class(-mx); break;
            case 44: case 45: { // quotient to y, remainder over an operand
                if (y == t) break;
                mpz_class q, r, d = op == 44 ? mt : mx, v = op == 44 ? mx : mt;
                if (v != 0) mpz_tdiv_qr(q.get_mpz_t(), r.get_mpz_t(), d.get_mpz_t(), v.get_mpz_t());
                try {
                    if (op == 44) Y = BigInteger::div_rem(T, X, T); else Y = BigInteger::div_rem(X, T, T);
                    REQUIRE(c, v != 0, "division by zero must throw");
                    mt = r; my = q;
                } catch (const DivideByZero&) { REQUIRE(c, v == 0, "DivideByZero with a non-zero divisor"); }
                break;
            }
            case 46: { bool neg = s.flag(); if (isBig(mx)) { T = BigInteger(X.get_bits(), neg); mt = mpz_class(abs(mx)); if (neg) mt = mpz_class(-mt); } break; }
            case 47: {
                if (mt == 0 || limbCount(my) > 2 || limbCount(mx) + limbCount(mt) > 60) break;
                mpz_class e = abs(my), r, ax = abs(mx), at = abs(mt);
                BigInteger E = BigInteger::abs(Y);
                T = BigInteger::mod_pow(X, E, T);
                mpz_powm(r.get_mpz_t(), ax.get_mpz_t(), e.get_mpz_t(), at.get_mpz_t());
                if (mx < 0 && mpz_odd_p(e.get_mpz_t())) r = -r;
                mt = r;
                break;
            }
            case 48: { // temporaries on the left
                if (s.flag()) { T = (T + X) - Y; mt = mpz_class(mt + mx - my); }
                else { T = (T ^ X) * Y; mt = mpz_class((mt ^ mx) * my); }
                break;
            }
            case 49: mt = genRelated(s, mpz_class(mx), 8); c.in("v", mt); T = makeAny(c, mt); break;
            case 50: { // the values a cache keyed by less than the whole value confuses
                uint_array l = limbsOf(mx);
                if (l.size() < 2 || t == x) break;
                size_t i = 1 + s.below(l.size() - 1);
                uint32_t m = genLimb(s);
                l[i] ^= m;
                if (s.flag()) l[i - 1] ^= m << 7 | m >> 25; // and the same hash code
                mt = mx < 0 ? mpz_class(-zFromLimbs(l)) : zFromLimbs(l);
                c.in("v", mt);
                REQUIRE(c, X.to_string() == mx.get_str() && X.get_hash_code() == make(mx).get_hash_code(), "to_string and hash before");
                T = makeAny(c, mt);
                REQUIRE(c, T.to_string() == mt.get_str() && val(T) == mt && T.get_hash_code() == make(mt).get_hash_code(), "to_string and hash of a look-alike");
                break;
            }
            default: { // calls that must not change anything
                const BigInteger &CX = X, &CY = Y;
                int k = CX.compare_to(CY), w = cmp(mx, my);
                REQUIRE(c, (k > 0) - (k < 0) == (w > 0) - (w < 0), "compare_to in a history");
                REQUIRE(c, CX.get_bit_length() == bitCount(mx >= 0 ? mpz_class(mx) : mpz_class(-mx - 1)) && CX.sign() == sgn(mx) && CX.is_even() == (mpz_even_p(mx.get_mpz_t()) != 0), "queries in a history");
                REQUIRE(c, CX.to_string() == mx.get_str(), "to_string in a history");
                double d = X.operator double(), l10 = BigInteger::log10(CX);
                if (limbCount(mx) < 32) {
                    mpz_class back = std::isfinite(d) ? mpz_class(d) : mpz_class(0); // truncated to 53 bits
                    size_t bits = bitCount(mx);
                    mpz_class ulp = bits > 53 ? pow2(bits - 53) : mpz_class(1);
                    REQUIRE(c, std::isfinite(d) && abs(mx - back) < ulp && (d < 0) == (mx < 0), "double in a history");
                }
                if (mx > 0) { mpf_class f(mx, 64); long e2 = 0; double man = mpf_get_d_2exp(&e2, f.get_mpf_t()); double want = std::log10(man) + e2 * 0.30102999566398120; REQUIRE(c, std::fabs(l10 - want) <= 1e-9 * (1 + std::fabs(want)), "log10 in a history"); }
                REQUIRE(c, CX.get_hash_code() == make(mx).get_hash_code() && CX.to_byte_array() == twosBytes(mx) && CX.to_byte_array(false, true) == twosBytes(mx, true) && CX.get_byte_count() == static_cast<int>(twosBytes(mx).size()), "exports in a history");
                REQUIRE(c, CX.is_power_of_two() == (mx > 0 && mpz_popcount(mx.get_mpz_t()) == 1) && CX.is_zero() == (mx == 0) && CX.is_one() == (mx == 1) && (CX == CY) == (mx == my) && (CX < CY) == (mx < my), "queries and comparisons in a history");
                REQUIRE(c, val(-X) == -mx && val(+X) == mx && val(~X) == ~mx, "unary operators in a history");
            }
        }
        done++;
        p.check(name);
        p.canonical(t, name);
        big = big || limbCount(mt) >= 2;
        c.digest = c.digest * 31 + static_cast<uint32_t>(T.get_hash_code());
    }
    c.nontrivial = done >= 5 && big;
    for (auto& v : p.m) c.out(v.get_str(16));
}

template <class E, class F> static void mustThrow(Ctx& c, const char* what, F f) {
    try { f(); }
    catch (const E& e) {
        if (std::is_same<E, std::exception>::value) return;
        return;
    }
    catch (const std::exception& e) { c.fail(std::string(what) + " threw " + exName(e)); }
    c.fail(std::string(what) + " returned normally");
}

PROPERTY(C18, "one call outside the domain of an operation (zero divisor or modulus, negative exponent, out-of-range conversion, unsigned export of a negative, non-finite double, impossible power size) with operands of any size; non-trivial when an operand has limbs") {
    Source& s = c.s;
    mpz_class a = s.oneIn(3) ? genNative(s) : genIntL(s, 60, 3000), b = genInt(s, 40);
    unsigned op = s.below(20);
    c.in("a", a); c.in("b", b);
    sizeLabels(c, "a", a);
    BigInteger A = makeAny(c, a), B = makeAny(c, b), Z = makeVia(0, s.below(ROUTES)), R(77), T = makeAny(c, a);
    c.nontrivial = isBig(a);
    switch (op) {
        case 0: c.op("a/0"); mustThrow<DivideByZero>(c, "a/0", [&] { A / Z; }); break;
        case 1: c.op("a%0"); mustThrow<DivideByZero>(c, "a%0", [&] { A % Z; }); break;
        case 2: c.op("a/=0"); mustThrow<DivideByZero>(c, "a/=0", [&] { A /= Z; }); break;
        case 3: c.op("a%=0"); mustThrow<DivideByZero>(c, "a%=0", [&] { A %= Z; }); break;
        case 4: c.op("divide(a,0)"); mustThrow<DivideByZero>(c, "divide(a,0)", [&] { BigInteger::divide(A, Z); }); break;
        case 5: c.op("remainder(a,0)"); mustThrow<DivideByZero>(c, "remainder(a,0)", [&] { BigInteger::remainder(A, Z); }); break;
        case 6: c.op("div_rem(a,0,r)"); mustThrow<DivideByZero>(c, "div_rem(a,0,r)", [&] { BigInteger::div_rem(A, Z, R); }); break;
        case 7: case 8: case 9: {
            mpz_class e = s.below(4) == 0 ? mpz_class(s.below(3)) : s.flag() ? mpz_class(s.u32()) : genMag(s, 4);
            c.op("mod_pow(a,e,0)"); c.in("e", e);
            BigInteger E = make(e);
            c.nontrivial = isBig(a) || isBig(e);
            mustThrow<DivideByZero>(c, "mod_pow(a,e,0)", [&] { BigInteger::mod_pow(A, E, Z); });
            break;
        }
        case 10: { c.op("mod_pow(a,-e,m)"); mpz_class e = -1 - genMag(s, 4); c.in("e", e); BigInteger E = make(e); mustThrow<std::out_of_range>(c, "mod_pow with a negative exponent", [&] { BigInteger::mod_pow(A, E, B); }); break; }
        case 11: { c.op("pow(a,-e)"); int e = -1 - static_cast<int>(s.u32() >> 1); c.in("e", e); mustThrow<std::out_of_range>(c, "pow with a negative exponent", [&] { BigInteger::pow(A, e); }); break; }
        case 12: { // conversions; each type checked against its range
            c.op("out-of-range conversions");
            mpz_class v = s.flag() ? pow2(64 + s.below(200)) + genMag(s, 3) : genNative(s);
            if (s.flag()) v = -v;
            c.in("v", v);
            c.nontrivial = true;
            BigInteger V = makeAny(c, v);
            if (v > 2147483647l || v < -2147483648l) mustThrow<std::overflow_error>(c, "conversion to int", [&] { (void)V.operator int(); });
            if (v > 4294967295l || v < 0) mustThrow<std::overflow_error>(c, "conversion to unsigned int", [&] { (void)V.operator unsigned int(); });
            if (!v.fits_slong_p()) mustThrow<std::overflow_error>(c, "conversion to long", [&] { (void)V.operator long(); });
            if (!v.fits_ulong_p()) mustThrow<std::overflow_error>(c, "conversion to unsigned long", [&] { (void)V.operator unsigned long(); });
            REQUIRE(c, val(V) == v, "a failed conversion leaves the value alone");
            break;
        }
        case 13: case 14: {
            if (a >= 0) a = -a - 1;
            c.op("to_byte_array(unsigned) of a negative"); c.in("a", a);
            A = make(a); T = make(a);
            bool be = s.flag();
            mustThrow<std::runtime_error>(c, "to_byte_array(true)", [&] { A.to_byte_array(true, be); });
            mustThrow<std::runtime_error>(c, "get_byte_count(true)", [&] { A.get_byte_count(true); });
            int w = 0;
            mustThrow<std::runtime_error>(c, "to_byte_array(Count, true)", [&] { A.to_byte_array(BigInteger::GetBytesMode::Count, true, be, &w); });
            break;
        }
        case 15: {
            uint64_t u = 0x7ff0000000000000ull | (s.flag() ? 0 : s.u64() & 0xfffffffffffffull) | (s.flag() ? 0x8000000000000000ull : 0);
            double d; memcpy(&d, &u, 8);
            c.op("BigInteger(non-finite)"); c.inD("d", d);
            c.nontrivial = true;
            mustThrow<std::overflow_error>(c, "BigInteger(non-finite)", [&] { BigInteger X(d); });
            REQUIRE(c, !BigInteger::double_IsFinite(d) && BigInteger::double_IsNaN(d) == std::isnan(d) && BigInteger::double_IsInfinity(d) == std::isinf(d), "double classification");
            break;
        }
        case 16: { // the result could not be stored: limbs*exponent does not fit an int
            c.op("pow too large");
            if (!isBig(a)) { a = pow2(31) + genMag(s, 20); A = make(a); T = make(a); c.in("a", a); }
            int64_t lo = (int64_t(1) << 31) / static_cast<int64_t>(limbCount(a)) + 1;
            int e = static_cast<int>(std::min<int64_t>(lo + static_cast<int64_t>(s.u32() % 100000), 0x7fffffff));
            if (static_cast<int64_t>(e) * static_cast<int64_t>(limbCount(a)) < (int64_t(1) << 31)) break;
            c.in("e", e);
            mustThrow<std::overflow_error>(c, "pow with an unstorable result", [&] { BigInteger::pow(A, e); });
            break;
        }
        case 17: { // a zero divisor reached by arithmetic
            c.op("a/(b-b)");
            BigInteger D = B; D -= B;
            mustThrow<DivideByZero>(c, "a/(b-b)", [&] { A / D; });
            mustThrow<DivideByZero>(c, "div_rem(a,b-b,r)", [&] { BigInteger::div_rem(A, D, R); });
            break;
        }
        case 18: { // one object in several places
            c.op("0/0");
            mustThrow<DivideByZero>(c, "0/0", [&] { Z / Z; });
            mustThrow<DivideByZero>(c, "0%0", [&] { Z % Z; });
            mustThrow<DivideByZero>(c, "z/=z", [&] { Z /= Z; });
            mustThrow<DivideByZero>(c, "z%=z", [&] { Z %= Z; });
            mustThrow<DivideByZero>(c, "divide(z,z)", [&] { BigInteger::divide(Z, Z); });
            mustThrow<DivideByZero>(c, "remainder(z,z)", [&] { BigInteger::remainder(Z, Z); });
            mustThrow<DivideByZero>(c, "div_rem(z,z,r)", [&] { BigInteger::div_rem(Z, Z, R); });
            mustThrow<DivideByZero>(c, "div_rem(z,z,z)", [&] { BigInteger::div_rem(Z, Z, Z); });
            mustThrow<DivideByZero>(c, "mod_pow(z,z,z)", [&] { BigInteger::mod_pow(Z, Z, Z); });
            mustThrow<DivideByZero>(c, "mod_pow(a,z,z)", [&] { BigInteger::mod_pow(A, Z, Z); });
            mustThrow<DivideByZero>(c, "div_rem(a,z,a)", [&] { BigInteger::div_rem(A, Z, A); });
            mustThrow<DivideByZero>(c, "div_rem(a,z,z)", [&] { BigInteger::div_rem(A, Z, Z); });
            if (a < 0) mustThrow<std::out_of_range>(c, "mod_pow(a,a,a), a negative", [&] { BigInteger::mod_pow(A, A, A); });
            break;
        }
        default: { // in-domain boundary cases must not throw
            c.op("in-domain boundary");
            expectValue(c, "pow(a,0)", BigInteger::pow(A, 0), 1);
            if (b != 0) { mpz_class w = abs(b) == 1 ? 0 : 1; expectValue(c, "mod_pow(a,0,b)", BigInteger::mod_pow(A, Z, B), w); }
            expectValue(c, "gcd(a,0)", BigInteger::greatest_common_divisor(A, Z), mpz_class(abs(a)));
            expectValue(c, "gcd(0,0)", BigInteger::greatest_common_divisor(Z, Z), 0);
        }
    }
    // nothing the caller passed may have changed
    REQUIRE(c, val(A) == a && A == T, "the first operand is unchanged after the error");
    REQUIRE(c, val(B) == b, "the second operand is unchanged after the error");
    REQUIRE(c, val(Z) == 0, "zero is unchanged after the error");
    REQUIRE(c, val(R) == 77, "the remainder output is unchanged after the error");
    if (isBig(a)) { BigInteger X = A + B; expectValue(c, "a+b after the error", X, mpz_class(a + b)); }
    c.out(a.get_str(16));
}
