// C10-C14: decimal text, order/equality/hash, native integers, floating point, logarithms.
#include "gen.h"
#include <algorithm>
#include <cmath>
#include <limits>
#include <map>
#include <set>

static void same(Ctx& c, const char* who, const BigInteger& x, const mpz_class& v) {
    mpz_class g = val(x);
    if (g != v) c.fail(std::string(who) + " was modified: had " + showZ(v) + ", now " + showZ(g));
}

PROPERTY(C10, "formatting a value, or parsing [+-]digits with leading zeros and optional whitespace-terminated tail; non-trivial when the text has more than 9 significant digits") {
    Source& s = c.s;
    Ambient ambient(c, 40);
    mpz_class v;
    switch (s.weighted({60, 60, 50, 30, 20})) {
        case 0: v = genInt(s, 12); break;
        case 1: { // 10^k + d and d*10^k: boundaries of the base-10^9 digit groups
            mpz_class p; mpz_ui_pow_ui(p.get_mpz_t(), 10, s.flag() ? 9 * s.below(30) : s.below(250));
            v = s.flag() ? mpz_class(p * static_cast<unsigned long>(s.below(1000))) : mpz_class(p + static_cast<long>(s.range(-2, 2)));
            break;
        }
        case 2: { // a chosen digit count, digits from a small set
            std::string d; size_t n = s.flag() ? 9 * (1 + s.below(25)) : 1 + s.below(200);
            for (size_t i = 0; i < n; i++) { unsigned x = s.u8(); d += static_cast<char>('0' + (x < 128 ? (x & 1 ? 9 : 0) : x % 10)); }
            if (d[0] == '0') d[0] = '1';
            v = mpz_class(d); break;
        }
        case 3: v = genNative(s); break;
        default: v = genInt(s, 150);
    }
    bool large = s.oneIn(1500);
    #ifdef GIANT // quadratic: too slow with sanitizers
    if (large && s.oneIn(30)) v = genLarge(s, 3000, 7300); else
#endif
    if (large) v = genLarge(s, 80, 2600);
    if (s.flag()) v = -v;
    sizeLabels(c, "v", v);
    std::string digits = mpz_class(abs(v)).get_str();
    c.nontrivial = digits.size() > 9;
    if (v < 0 && digits.size() % 9 == 0) c.label("negative, whole groups of 9 digits");
    if (s.flag()) {
        c.op("to_string"); c.in("v", v);
        BigInteger V = makeAny(c, v);
        std::string t = V.to_string(), want = v.get_str();
        if (t != want) c.fail("to_string gave \"" + t + "\", expected \"" + want + "\"");
        expectValue(c, "parse(to_string(v))", BigInteger::parse(t), v);
        BigInteger W(5);
        REQUIRE(c, BigInteger::try_parse(t, W), "try_parse accepts to_string output");
        expectValue(c, "try_parse(to_string(v))", W, v);
        same(c, "v", V, v);
        c.out(t);
    } else {
        std::string t = v < 0 ? "-" : s.flag() ? "+" : "";
        if (s.oneIn(12)) { // no digits at all
            v = 0; digits.clear();
            if (s.flag()) t.clear();
            c.label("no digits");
        } else {
            size_t zeros = s.oneIn(2) ? s.below(25) : 0;
            if (s.oneIn(40)) { zeros = 500 + s.below(1500); c.label("many leading zeros"); }
            digits.insert(0, zeros, '0');
        }
        t += digits;
        if (s.oneIn(3) || digits.empty()) { // something else ends the numeral
            static const char stop[] = {' ', '\n', '\t', '\0', '-', '+', '.', ',', 'e', 'E', 'x', 'a', 'F', '_', '/', ':', '\x7f', '\xb0', '\xff'};
            char ch = s.oneIn(4) ? static_cast<char>(s.u8()) : s.pick(stop);
            if ((ch >= '0' && ch <= '9') || (t.empty() && (ch == '+' || ch == '-'))) ch = '.';
            t += ch;
            for (unsigned n = s.below(6); n--;) t += static_cast<char>(s.flag() ? '0' + s.below(10) : s.u8());
            c.label("tail after the numeral");
        }
        if (digits.empty() && s.oneIn(6)) { t = s.flag() ? "" : s.flag() ? "-" : "+"; }
        if (v == 0 && !digits.empty() && s.flag()) t = "-" + std::string(1 + s.below(20), '0');
        c.op("parse"); c.inText("text", t);
        expectValue(c, "parse(text)", BigInteger::parse(t), v);
        BigInteger W(5);
        REQUIRE(c, BigInteger::try_parse(t, W), "try_parse accepts the text");
        expectValue(c, "try_parse(text)", W, v);
        c.out(v.get_str());
    }
}

PROPERTY(C11, "comparison of two (or three) values, built by different routes, through all operators, compare_to, equals and hash, and use as ordered-container keys; non-trivial when both operands have limbs and the same sign") {
    Source& s = c.s;
#ifdef GIANT
    if (wantGiant(s, 600)) {
        Giant g = genGiant(c);
        BigInteger B = g.V;
        REQUIRE(c, B == g.V && B.compare_to(g.V) == 0 && B.get_hash_code() == g.V.get_hash_code(), "copy of a value of about 2^31 bits");
        int d = s.flag() ? 1 : -1;
        B += BigInteger(d);
        REQUIRE(c, B != g.V && !(B == g.V) && !B.equals(g.V) && (B > g.V) == (d > 0) && (B < g.V) == (d < 0), "neighbours of about 2^31 bits");
        REQUIRE(c, (B.compare_to(g.V) > 0) == (d > 0) && (g.V.compare_to(B) > 0) == (d < 0), "compare_to of neighbours of about 2^31 bits");
        B -= BigInteger(d);
        REQUIRE(c, B == g.V && B.get_hash_code() == g.V.get_hash_code(), "there and back at about 2^31 bits");
        return;
    }
#endif
    mpz_class a = genIntL(s, 90, 3000), b = genRelated(s, a, 90);
    if (s.oneIn(4)) { a = genNative(s); b = genRelated(s, a, 3); }
    corners(s, a, b);
    if (s.flag()) std::swap(a, b);
    c.in("a", a); c.in("b", b);
    sizeLabels(c, "a", a); sizeLabels(c, "b", b);
    BigInteger A = makeVia(a, s.below(ROUTES)), B = makeVia(b, s.below(ROUTES));
    int k = cmp(a, b);
    k = (k > 0) - (k < 0);
    c.label(k < 0 ? "a<b" : k > 0 ? "a>b" : "a==b");
    if (s.oneIn(8)) {
        c.op("containers");
        mpz_class d = genRelated(s, b, 90);
        c.in("d", d);
        BigInteger D = makeVia(d, s.below(ROUTES));
        std::set<BigInteger> st{A, B, D, makeVia(a, s.below(ROUTES))};
        std::set<mpz_class> mo{a, b, d};
        REQUIRE(c, st.size() == mo.size(), "a set holds one element per distinct value");
        auto it = mo.begin();
        for (auto& x : st) expectValue(c, "set order", x, *it++);
        std::vector<BigInteger> v{A, B, D};
        std::vector<mpz_class> m{a, b, d};
        std::sort(v.begin(), v.end()); std::sort(m.begin(), m.end());
        for (size_t i = 0; i < 3; i++) expectValue(c, "sort order", v[i], m[i]);
        c.nontrivial = isBig(a) && isBig(b);
        return;
    }
    c.op("compare");
    int g = A.compare_to(B);
    REQUIRE(c, (g > 0) - (g < 0) == k, "a.compare_to(b) has sign " + std::to_string(k) + ", got " + std::to_string(g));
    int h = B.compare_to(A);
    REQUIRE(c, (h > 0) - (h < 0) == -k, "b.compare_to(a)");
    REQUIRE(c, (A < B) == (k < 0), "a<b");
    REQUIRE(c, (A <= B) == (k <= 0), "a<=b");
    REQUIRE(c, (A > B) == (k > 0), "a>b");
    REQUIRE(c, (A >= B) == (k >= 0), "a>=b");
    REQUIRE(c, (A == B) == (k == 0), "a==b");
    REQUIRE(c, (A != B) == (k != 0), "a!=b");
    REQUIRE(c, A.equals(B) == (k == 0), "a.equals(b)");
    REQUIRE(c, A == A && A.compare_to(A) == 0 && !(A < A), "a compared with itself");
    BigInteger A2 = makeVia(a, s.below(ROUTES));
    REQUIRE(c, A == A2 && A2.compare_to(A) == 0, "the same value built another way is equal");
    REQUIRE(c, A.get_hash_code() == A2.get_hash_code(), "equal values hash equally");
    if (k == 0) REQUIRE(c, A.get_hash_code() == B.get_hash_code(), "equal values hash equally");
    same(c, "a", A, a); same(c, "b", B, b);
    c.nontrivial = isBig(a) && isBig(b) && sgn(a) == sgn(b);
    c.out(std::to_string(k));
}

template <class T> static mpz_class zOf(T v) {
    mpz_class r;
    if (v < 0) { mpz_class m; uint64_t u = ~static_cast<uint64_t>(v); mpz_import(m.get_mpz_t(), 1, -1, 8, 0, 0, &u); r = -m - 1; }
    else { uint64_t u = static_cast<uint64_t>(v); mpz_import(r.get_mpz_t(), 1, -1, 8, 0, 0, &u); }
    return r;
}
template <class T, class C> static void convert(Ctx& c, const char* name, BigInteger& V, const mpz_class& v) {
    mpz_class lo = zOf(std::numeric_limits<T>::min()), hi = zOf(std::numeric_limits<T>::max());
    bool fits = v >= lo && v <= hi;
    c.label(std::string(name) + (fits ? " in range" : " out of range"));
    try {
        T got = static_cast<T>(V.operator C());
        if (!fits) c.fail(std::string("conversion to ") + name + " of the out-of-range " + showZ(v) + " gave " + std::to_string(got));
        if (zOf(got) != v) c.fail(std::string("conversion to ") + name + " of " + showZ(v) + " gave " + std::to_string(got));
    } catch (const std::overflow_error&) {
        if (fits) c.fail(std::string("conversion to ") + name + " of " + showZ(v) + " reported overflow");
    }
}
template <class T> static void construct(Ctx& c, const char* name, T n) {
    c.op(name); c.in("n", zOf(n));
    BigInteger X(n);
    expectValue(c, name, X, zOf(n));
    BigInteger Y(3);
    Y = n; // conversion in an assignment
    expectValue(c, "assignment from a native integer", Y, zOf(n));
}
template <class T> static void mixedOp(Ctx& c, BigInteger& V, const mpz_class& v, T n, unsigned op) {
    mpz_class m = zOf(n), want;
    c.in("native", m);
    switch (op) {
        case 0: c.op("v+=native"); V += n; want = v + m; break;
        case 1: c.op("v-=native"); V -= n; want = v - m; break;
        case 2: c.op("v*=native"); V *= n; want = v * m; break;
        case 3: c.op("v&=native"); V &= n; want = v & m; break;
        case 4: c.op("v|=native"); V |= n; want = v | m; break;
        case 5: c.op("v^=native"); V ^= n; want = v ^ m; break;
        case 6: if (m == 0) { want = v; break; } c.op("v/=native"); V /= n; mpz_tdiv_q(want.get_mpz_t(), v.get_mpz_t(), m.get_mpz_t()); break;
        default: if (m == 0) { want = v; break; } c.op("v%=native"); V %= n; mpz_tdiv_r(want.get_mpz_t(), v.get_mpz_t(), m.get_mpz_t()); break;
    }
    expectValue(c, "compound assignment with a native integer", V, want);
}

PROPERTY(C12, "constructing from, converting to, or combining with int32/uint32/int64/uint64 near every limit of those types; non-trivial when the value is outside the inline int range") {
    Source& s = c.s;
    mpz_class v = s.oneIn(6) ? genCorner(s) : genNative(s);
    sizeLabels(c, "v", v);
    c.nontrivial = isBig(v);
    uint64_t u; { mpz_class t = abs(v) & 0xfffffffffffffffful; u = 0; mpz_export(&u, nullptr, -1, 8, 0, 0, t.get_mpz_t()); }
    if (v < 0) u = 0 - u;
    switch (s.below(4)) {
        case 0: case 1: {
            c.op("convert"); c.in("v", v);
            BigInteger V = makeAny(c, v);
            convert<int32_t, int>(c, "int32", V, v);
            convert<uint32_t, unsigned int>(c, "uint32", V, v);
            convert<int64_t, long>(c, "int64", V, v);
            convert<uint64_t, unsigned long>(c, "uint64", V, v);
            same(c, "v", V, v);
            break;
        }
        case 2:
            construct<int32_t>(c, "BigInteger(int32)", static_cast<int32_t>(u));
            construct<uint32_t>(c, "BigInteger(uint32)", static_cast<uint32_t>(u));
            construct<int64_t>(c, "BigInteger(int64)", static_cast<int64_t>(u));
            construct<uint64_t>(c, "BigInteger(uint64)", u);
            break;
        default: {
            mpz_class w = s.oneIn(3) ? genCorner(s) : s.flag() ? genNative(s) : genInt(s, 40);
            c.in("v", w);
            BigInteger W = makeAny(c, w);
            unsigned op = s.below(8);
            switch (s.below(4)) {
                case 0: mixedOp(c, W, w, static_cast<int32_t>(u), op); break;
                case 1: mixedOp(c, W, w, static_cast<uint32_t>(u), op); break;
                case 2: mixedOp(c, W, w, static_cast<int64_t>(u), op); break;
                default: mixedOp(c, W, w, u, op);
            }
            c.nontrivial = isBig(w) || isBig(v);
        }
    }
    c.out(v.get_str(16));
}

static double truncToDouble(const mpz_class& v) { // round toward zero, infinite from 2^1024 on
    if (bitCount(v) > 1024) return v < 0 ? -HUGE_VAL : HUGE_VAL;
    return mpz_get_d(v.get_mpz_t());
}

PROPERTY(C13, "conversion from a finite double (truncation), to double (truncation toward zero, infinite from 2^1024) or to float, and the round trip; non-trivial when the magnitude is at least 2^53 or the double has a fractional part") {
    Source& s = c.s;
#ifdef GIANT
    if (wantGiant(s, 1500)) {
        Giant g = genGiant(c);
        double d = g.V.operator double(); float f = g.V.operator float();
        REQUIRE(c, std::isinf(d) && (d > 0) == (g.v > 0) && std::isinf(f) && (f > 0) == (g.v > 0), "double and float of about 2^31 bits");
        return;
    }
#endif
    Ambient ambient(c, 10);
    if (s.flag()) {
        double d = genDouble(s);
        c.op("BigInteger(double)"); c.inD("d", d);
        BigInteger X(d);
        mpz_class want;
        mpz_set_d(want.get_mpz_t(), d); // truncates
        expectValue(c, "BigInteger(double)", X, want);
        sizeLabels(c, "v", want);
        double back = X.operator double();
        REQUIRE(c, BigInteger::double_IsFinite(d) && !BigInteger::double_IsNaN(d) && !BigInteger::double_IsInfinity(d), "classification of a finite double");
        REQUIRE(c, back == std::trunc(d), "double -> BigInteger -> double keeps the integral part");
        c.nontrivial = std::fabs(d) >= 9007199254740992.0 || std::trunc(d) != d;
        c.out(want.get_str(16));
        return;
    }
    mpz_class v;
    switch (s.weighted({60, 60, 60, 40, 30})) {
        case 0: v = genIntL(s, 36, 3000, 2000); break;
        case 1: v = genNative(s); break;
        case 2: { // 53 significant bits plus a tail
            mpz_class m = static_cast<unsigned long>((s.u64() >> 11) | (1ull << 52));
            if (s.oneIn(4)) m = 0x1ffffffffffffful;
            unsigned long k = s.below(980);
            v = m << k;
            if (k && s.flag()) v += genMag(s, 3) % pow2(k);
            if (k && s.oneIn(4)) v += pow2(k) - 1;
            break;
        }
        case 3: v = pow2(s.flag() ? 1024 : 960 + s.below(70)) + (s.flag() ? mpz_class(static_cast<long>(s.range(-3, 3))) : mpz_class(-pow2(s.below(1000)))); break;
        default: v = pow2(s.below(1100)) + static_cast<long>(s.range(-1, 1));
    }
    if (s.flag()) v = -v;
    c.op("to double"); c.in("v", v);
    sizeLabels(c, "v", v);
    BigInteger V = makeAny(c, v);
    double want = truncToDouble(v), got = V.operator double();
    if (!(want == got)) { char b[128]; snprintf(b, sizeof b, "expected %a, got %a", want, got); c.fail(std::string("conversion to double: ") + b); }
    float wf = static_cast<float>(want), gf = V.operator float();
    REQUIRE(c, wf == gf, "conversion to float is the conversion to double, narrowed");
    if (std::isinf(want)) c.label("infinite");
    else { BigInteger W(got); mpz_class back; mpz_set_d(back.get_mpz_t(), got); expectValue(c, "BigInteger(double(v))", W, back); }
    same(c, "v", V, v);
    c.nontrivial = bitCount(v) > 53;
    c.out(std::to_string(want));
}

// reference logarithm of v > 0 in long double
static long double lnRef(const mpz_class& v) {
    long e = 0;
    size_t n = bitCount(v);
    mpz_class t = v;
    if (n > 64) { e = static_cast<long>(n - 64); t >>= static_cast<unsigned long>(e); }
    uint64_t u = 0;
    mpz_export(&u, nullptr, -1, 8, 0, 0, t.get_mpz_t());
    return logl(static_cast<long double>(u)) + static_cast<long double>(e) * M_LN2l;
}
static bool close(double got, long double want, long double scale) {
    if (std::isnan(got)) return false;
    return fabsl(static_cast<long double>(got) - want) <= 1e-13L * (fabsl(want) + scale) + 1e-300L;
}

PROPERTY(C14, "log(v), log10(v) and log(v, base) against long-double references, with the special cases of .NET Math.Log (negative value, bases 0, 1, infinity, NaN); non-trivial when v has limbs") {
    Source& s = c.s;
#ifdef GIANT
    if (wantGiant(s, 600)) {
        Giant g = genGiant(c);
        double ln = BigInteger::log(g.V), l10 = BigInteger::log10(g.V);
        if (g.v < 0) { REQUIRE(c, std::isnan(ln) && std::isnan(l10), "the logarithm of a negative value is NaN"); return; }
        long double w = lnRef(g.v);
        if (!close(ln, w, 0)) c.fail("log(about 2^31 bits) = " + std::to_string(ln) + ", expected " + std::to_string(static_cast<double>(w)));
        if (!close(l10, w / M_LN10l, 0)) c.fail("log10(about 2^31 bits) = " + std::to_string(l10) + ", expected " + std::to_string(static_cast<double>(w / M_LN10l)));
        return;
    }
#endif
    mpz_class v = s.oneIn(3) ? genNative(s) : s.flag() ? genIntL(s, 90, 4000) : pow2(s.below(3000)) + static_cast<long>(s.range(-1, 1));
    if (v < 0 && !s.oneIn(8)) v = -v;
    double base;
    switch (s.weighted({40, 60, 60, 40, 20})) {
        case 0: { static const double bs[] = {2, 10, 2.718281828459045, 0.5, 16, 3, 1e10, 0.1, 1e-10, 1e300, 1.5, 0.75}; base = s.pick(bs); break; }
        case 1: base = 1.0 + static_cast<double>(1 + s.below(4000)) / 256; break;
        case 2: base = std::ldexp(1.0 + static_cast<double>(s.u16()) / 65536, static_cast<int>(s.range(1, 900))); break;
        case 3: base = std::ldexp(1.0 + static_cast<double>(s.u16()) / 65536, static_cast<int>(s.range(-900, -1))); break;
        default: { static const double bs[] = {0.0, 1.0, HUGE_VAL, NAN, -2.0, -HUGE_VAL, -0.0, -1.0}; base = s.pick(bs); }
    }
    c.op("log"); c.in("v", v); c.inD("base", base);
    sizeLabels(c, "v", v);
    BigInteger V = makeAny(c, v);
    double ln = BigInteger::log(V), l10 = BigInteger::log10(V), lb = BigInteger::log(V, base);
    if (v < 0) {
        REQUIRE(c, std::isnan(ln) && std::isnan(l10) && std::isnan(lb), "the logarithm of a negative value is NaN");
        c.label("negative");
    } else if (v == 0) {
        REQUIRE(c, std::isinf(ln) && ln < 0 && std::isinf(l10) && l10 < 0, "log(0) is -infinity");
    } else {
        long double w = lnRef(v);
        if (!close(ln, w, 0)) c.fail("log(v) = " + std::to_string(ln) + ", expected " + std::to_string(static_cast<double>(w)));
        if (!close(l10, w / M_LN10l, 0)) c.fail("log10(v) = " + std::to_string(l10) + ", expected " + std::to_string(static_cast<double>(w / M_LN10l)));
    }
    if (v >= 0) {
        if (std::isnan(base) || base == 1.0 || base < 0) { REQUIRE(c, std::isnan(lb), "log with base NaN, 1 or negative is NaN"); c.label("special base"); }
        else if (base == 0.0 || std::isinf(base)) {
            c.label("special base");
            if (v == 1) REQUIRE(c, lb == 0.0, "log(1, 0 or infinity) is 0");
            else REQUIRE(c, std::isnan(lb), "log(v, 0 or infinity) is NaN");
        } else if (v == 0) REQUIRE(c, std::isinf(lb) && (lb < 0) == (base > 1), "log(0, base)");
        else {
            long double w = lnRef(v) / logl(static_cast<long double>(base));
            if (!close(lb, w, 0)) { char b[160]; snprintf(b, sizeof b, "log(v, base) = %.17g, expected %.17Lg", lb, w); c.fail(b); }
        }
    }
    same(c, "v", V, v);
    c.nontrivial = isBig(v);
}
