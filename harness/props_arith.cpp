// C01-C06: arithmetic against GMP.
#include "gen.h"
#include "exceptions.h"
#include <utility>

static void unchanged(Ctx& c, const char* who, const BigInteger& x, const mpz_class& v) {
    mpz_class g = val(x);
    if (g != v) c.fail(std::string(who) + " was modified: had " + showZ(v) + ", now " + showZ(g));
}

PROPERTY(C01, "one addition/subtraction/negation/abs/increment/decrement call through one of its entry points (operator, compound assignment, static function, aliased operands); non-trivial when an operand or the result is outside the inline int range (|v| >= 2^31)") {
    Source& s = c.s;
    unsigned op = s.below(18);
    size_t cap = s.oneIn(40) ? 700 : 130;
    mpz_class a = genIntL(s, cap, 4000), b = op < 8 ? genRelated(s, a, cap) : mpz_class(0), want;
    if (op < 8 && s.flag()) std::swap(a, b);
    if (op < 8) corners(s, a, b);
    c.in("a", a);
    BigInteger A = makeAny(c, a), B;
    if (op < 8) { B = makeAny(c, b); c.in("b", b); sizeLabels(c, "b", b); }
    sizeLabels(c, "a", a);
    switch (op) {
        case 0: c.op("a+b"); want = a + b; expectValue(c, "a+b", A + B, want); break;
        case 1: c.op("a-b"); want = a - b; expectValue(c, "a-b", A - B, want); break;
        case 2: { c.op("a+=b"); want = a + b; BigInteger& r = (A += B); expectValue(c, "a+=b", A, want); REQUIRE(c, &r == &A, "+= returns its target"); break; }
        case 3: { c.op("a-=b"); want = a - b; BigInteger& r = (A -= B); expectValue(c, "a-=b", A, want); REQUIRE(c, &r == &A, "-= returns its target"); break; }
        case 4: c.op("add(a,b)"); want = a + b; expectValue(c, "add(a,b)", BigInteger::add(A, B), want); unchanged(c, "a", A, a); break;
        case 5: c.op("subtract(a,b)"); want = a - b; expectValue(c, "subtract(a,b)", BigInteger::subtract(A, B), want); unchanged(c, "a", A, a); break;
        case 6: { c.op("(a+b)-b"); want = a; expectValue(c, "(a+b)-b", (A + B) - B, want); break; }
        case 7: { c.op("(a-b)+b"); want = a; expectValue(c, "(a-b)+b", (A - B) + B, want); break; }
        case 8: c.op("a+=a"); want = a + a; A += A; expectValue(c, "a+=a", A, want); break;
        case 9: c.op("a-=a"); want = 0; A -= A; expectValue(c, "a-=a", A, want); break;
        case 10: c.op("-a"); want = -a; expectValue(c, "-a", -A, want); unchanged(c, "a", A, a); break;
        case 11: c.op("+a"); want = a; expectValue(c, "+a", +A, want); break;
        case 12: c.op("negate(a)"); want = -a; expectValue(c, "negate(a)", BigInteger::negate(A), want); unchanged(c, "a", A, a); break;
        case 13: c.op("abs(a)"); want = abs(a); expectValue(c, "abs(a)", BigInteger::abs(A), want); unchanged(c, "a", A, a); break;
        case 14: { c.op("++a"); want = a + 1; BigInteger r = ++A; expectValue(c, "value of ++a", r, want); expectValue(c, "a after ++a", A, want); break; }
        case 15: { c.op("--a"); want = a - 1; BigInteger r = --A; expectValue(c, "value of --a", r, want); expectValue(c, "a after --a", A, want); break; }
        case 16: { c.op("a++"); want = a + 1; BigInteger r = A++; expectValue(c, "a after a++", A, want); expectValue(c, "value of a++", r, a); break; }
        default: { c.op("a--"); want = a - 1; BigInteger r = A--; expectValue(c, "a after a--", A, want); expectValue(c, "value of a--", r, a); break; }
    }
    if (op < 8) unchanged(c, "b", B, b);
    c.nontrivial = isBig(a) || isBig(b) || isBig(want);
    c.out(want.get_str(16));
}

PROPERTY(C02, "one multiplication or squaring call (sizes up to several hundred limbs, balanced and lopsided, equal magnitudes, signs); non-trivial when at least one factor is outside the inline int range") {
    Source& s = c.s;
    unsigned op = s.below(8);
    mpz_class a, b;
    switch (s.weighted({5000, 2200, 2800, 1700, 1700, 900, 40})) {
        case 0: a = genInt(s, 130); b = genRelated(s, a, 130); corners(s, a, b); break;
        case 6: { a = genLarge(s, 200, 2600); b = s.oneIn(4) ? a : s.flag() ? genRelated(s, a, 60) : genLarge(s, 20, 2600);
            if (s.oneIn(20)) { a = genHuge(s); b = s.flag() ? genNative(s) : genInt(s, 4); } // quadratic: the other one stays small
            break; }
        case 1: { // around the Karatsuba threshold (32 limbs) and its halves
            size_t n = 28 + s.below(72), m = n - s.below(n);
            a = genSized(s, n); b = genSized(s, m ? m : 1); break;
        }
        case 2: { size_t n = 60 + s.below(80), m = 30 + s.below(70); a = genSized(s, n); b = genSized(s, m); break; }
        case 3: { size_t n = 33 + s.below(200), m = 1 + s.below(n); a = genSized(s, n); b = genSized(s, m); break; }
        case 4: { a = genSized(s, 1 + s.below(140)); b = s.flag() ? a : mpz_class(-a); break; } // squaring
        default: { a = genSized(s, 1 + s.below(600)); b = s.flag() ? a : genSized(s, 1 + s.below(600)); break; }
    }
    if (s.flag()) a = -a;
    if (s.flag()) b = -b;
    if (s.flag()) std::swap(a, b);
    if (op == 3) b = a;
    c.in("a", a); c.in("b", b);
    sizeLabels(c, "a", a); sizeLabels(c, "b", b);
    if (a != 0 && abs(a) == abs(b)) c.label("equal magnitudes");
    BigInteger A = makeAny(c, a), B = makeAny(c, b);
    mpz_class want = a * b;
    switch (op) {
        case 0: c.op("a*b"); expectValue(c, "a*b", A * B, want); break;
        case 1: { c.op("a*=b"); BigInteger& r = (A *= B); expectValue(c, "a*=b", A, want); REQUIRE(c, &r == &A, "*= returns its target"); break; }
        case 2: c.op("multiply(a,b)"); expectValue(c, "multiply(a,b)", BigInteger::multiply(A, B), want); unchanged(c, "a", A, a); break;
        case 3: c.op("a*=a"); A *= A; expectValue(c, "a*=a", A, want); break;
        case 4: c.op("a*b==b*a"); { BigInteger x = A * B, y = B * A; expectValue(c, "a*b", x, want); expectValue(c, "b*a", y, want); } break;
        case 5: { // distributivity through the library alone
            c.op("a*(b+1)==a*b+a");
            BigInteger one(1), x = A * (B + one), y = A * B + A;
            expectValue(c, "a*(b+1)", x, mpz_class(a * (b + 1))); expectValue(c, "a*b+a", y, mpz_class(a * b + a));
            break;
        }
        case 6: c.op("(a*b)/b"); if (b != 0) expectValue(c, "(a*b)/b", (A * B) / B, a); break;
        default: c.op("pow(a,2)"); expectValue(c, "pow(a,2)", BigInteger::pow(A, 2), mpz_class(a * a)); break;
    }
    unchanged(c, "b", B, b);
    c.nontrivial = isBig(a) || isBig(b);
    c.out(want.get_str(16));
}

// dividend/divisor pairs; many are built backwards from quotient and remainder so that the quotient-digit
// estimate is wrong, the add-back step runs, remainders are 0 or divisor-1, and so on
static void genDivision(Source& s, mpz_class& a, mpz_class& b) {
    switch (s.weighted({7000, 6000, 4000, 4000, 3000, 1600, 50})) {
        case 6: { // large
            a = genLarge(s, 100, 2200);
            b = s.flag() ? genLarge(s, 20, 1500) : genRelated(s, a, 100);
            if (s.oneIn(3)) { mpz_class q = genLarge(s, 10, 700); a = q * b + (s.flag() ? mpz_class(0) : mpz_class(b - sgn(b))); }
            if (s.oneIn(6)) a = s.flag() ? genNative(s) : genInt(s, 60); // nothing fits
            if (s.oneIn(20)) { // quadratic: the divisor or the quotient stays small
                mpz_class h = genHuge(s), k = s.flag() ? genNative(s) : genInt(s, 4);
                if (s.flag()) { a = h; b = k; } else { b = h; a = h * k + (s.flag() ? genRelated(s, k, 4) : mpz_class(0)); }
            }
            break;
        }
        case 0: a = genInt(s, 100); b = genRelated(s, a, 100); break;
        case 1: { // a = q*b + r
            b = genSized(s, 1 + s.below(s.flag() ? 6 : 40));
            mpz_class q = genSized(s, 1 + s.below(s.flag() ? 6 : 40)), r;
            switch (s.below(5)) {
                case 0: r = 0; break;
                case 1: r = b - 1; break;
                case 2: r = 1; break;
                case 3: r = b / 2; break;
                default: r = genSized(s, limbCount(b)) % b;
            }
            a = q * b + r;
            break;
        }
        case 2: { // divisor with top limbs 0x80000000,0..: worst case for the estimate
            size_t n = 2 + s.below(6);
            b = pow2(32 * n - 1);
            if (s.flag()) b += genLimb(s);
            if (s.flag()) b += mpz_class(genLimb(s)) << 32 * (n - 2);
            if (s.flag()) b >>= s.below(32);
            mpz_class q = genSized(s, 1 + s.below(6));
            a = q * b + (s.flag() ? mpz_class(b - 1) : genSized(s, n) % b);
            break;
        }
        case 3: { // same leading limbs: a's top equals b's top
            size_t n = 2 + s.below(8), k = 1 + s.below(6);
            b = genSized(s, n);
            a = (b << 32 * k) + (s.flag() ? mpz_class(-1) : mpz_class(genSized(s, k) * (s.flag() ? 1 : -1)));
            if (s.flag()) { mpz_class low = genSized(s, n - 1); b = (b >> 32 * (n - 1) << 32 * (n - 1)) + low; }
            break;
        }
        case 4: b = genNative(s); a = genInt(s, 60); break; // single-limb divisors
        default: { size_t n = 1 + s.below(500); a = genSized(s, n); b = genSized(s, 1 + s.below(n)); }
    }
    if (s.flag()) a = -a;
    if (s.flag()) b = -b;
    corners(s, a, b);
    if (b == 0) b = 1;
}

PROPERTY(C03, "one division call (/, %, /=, %=, divide, remainder, div_rem, aliased forms) with a non-zero divisor, many pairs built backwards from quotient and remainder; non-trivial when |dividend| >= 2^31 and |dividend| > |divisor| > 1") {
    Source& s = c.s;
    unsigned op = s.below(15);
    mpz_class a, b, q, r;
    genDivision(s, a, b);
    if (op == 9) { if (a == 0) a = 1; b = a; }
    mpz_tdiv_qr(q.get_mpz_t(), r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
    c.in("a", a); c.in("b", b);
    sizeLabels(c, "dividend", a); sizeLabels(c, "divisor", b); sizeLabels(c, "quotient", q);
    if (r == 0) c.label("exact division");
    BigInteger A = makeAny(c, a), B = makeAny(c, b);
    bool bSame = true;
    switch (op) {
        case 0: c.op("a/b"); expectValue(c, "a/b", A / B, q); break;
        case 1: c.op("a%b"); expectValue(c, "a%b", A % B, r); break;
        case 2: { c.op("a/=b"); BigInteger& x = (A /= B); expectValue(c, "a/=b", A, q); REQUIRE(c, &x == &A, "/= returns its target"); break; }
        case 3: { c.op("a%=b"); BigInteger& x = (A %= B); expectValue(c, "a%=b", A, r); REQUIRE(c, &x == &A, "%= returns its target"); break; }
        case 4: c.op("divide(a,b)"); expectValue(c, "divide(a,b)", BigInteger::divide(A, B), q); unchanged(c, "a", A, a); break;
        case 5: c.op("remainder(a,b)"); expectValue(c, "remainder(a,b)", BigInteger::remainder(A, B), r); unchanged(c, "a", A, a); break;
        case 6: case 10: case 11: case 12: {
            c.op("div_rem(a,b,r)");
            BigInteger R = make(genInt(s, 3));
            BigInteger Q = BigInteger::div_rem(A, B, R);
            expectValue(c, "div_rem quotient", Q, q); expectValue(c, "div_rem remainder", R, r); unchanged(c, "a", A, a);
            break;
        }
        case 7: { c.op("div_rem(a,b,a)"); BigInteger Q = BigInteger::div_rem(A, B, A); expectValue(c, "div_rem(a,b,a) quotient", Q, q); expectValue(c, "div_rem(a,b,a) remainder", A, r); break; }
        case 8: { c.op("div_rem(a,b,b)"); BigInteger Q = BigInteger::div_rem(A, B, B); expectValue(c, "div_rem(a,b,b) quotient", Q, q); expectValue(c, "div_rem(a,b,b) remainder", B, r); bSame = false; break; }
        case 9: {
            unsigned k = s.below(4);
            if (k == 0) { c.op("a/=a"); A /= A; expectValue(c, "a/=a", A, 1); }
            else if (k == 1) { c.op("a%=a"); A %= A; expectValue(c, "a%=a", A, 0); }
            else if (k == 2) { c.op("div_rem(a,a,r)"); BigInteger R(7); BigInteger Q = BigInteger::div_rem(A, A, R); expectValue(c, "div_rem(a,a,r) quotient", Q, 1); expectValue(c, "div_rem(a,a,r) remainder", R, 0); }
            else { c.op("div_rem(a,a,a)"); BigInteger Q = BigInteger::div_rem(A, A, A); expectValue(c, "div_rem(a,a,a) quotient", Q, 1); expectValue(c, "div_rem(a,a,a) remainder", A, 0); }
            break;
        }
        case 13: { c.op("q=div_rem(q,b,r)"); BigInteger R; A = BigInteger::div_rem(A, B, R); expectValue(c, "quotient", A, q); expectValue(c, "remainder", R, r); break; }
        default: { // identity through the library alone
            c.op("(a/b)*b+a%b");
            BigInteger x = (A / B) * B + A % B;
            expectValue(c, "(a/b)*b+a%b", x, a);
        }
    }
    if (bSame) unchanged(c, "b", B, b);
    c.nontrivial = isBig(a) && abs(a) > abs(b) && abs(b) > 1;
    c.out(q.get_str(16)); c.out(r.get_str(16));
}

PROPERTY(C04, "pow(value, exponent >= 0) with a result of at most about 60000 bits (rarely 4.8 million), or pow(x,a)*pow(x,b)==pow(x,a+b); non-trivial when |value| > 1, exponent > 1 and the result needs more than one limb") {
    Source& s = c.s;
    mpz_class v;
    switch (s.weighted({60, 60, 60, 20, 20})) {
        case 0: v = s.range(-40, 40); break;
        case 1: v = s.flag() ? genCorner(s) : genNative(s); break;
        case 2: v = genInt(s, 40); break;
        case 4: v = genInt(s, 4) << s.below(200); break; // zero limbs at the low end
        default: { v = pow2(s.below(300)) + static_cast<long>(s.range(-1, 1)); if (s.flag()) v = -v; }
    }
    size_t bits = bitCount(v);
    unsigned long emax = bits <= 1 ? 0x7fffffff : std::max<unsigned long>(2, (s.oneIn(30) ? 60000 : 6000) / bits);
    unsigned long e = s.weighted({40, 40, 20}) == 0 ? s.below(std::min<unsigned long>(emax, 8) + 1) : s.flag() ? s.below(std::min<unsigned long>(emax, 100) + 1) : s.below(emax + 1);
#ifdef GIANT
    if (s.oneIn(40000)) {
        v = s.below(3) == 0 ? mpz_class(genInt(s, 3)) : mpz_class(mpz_class(s.range(-40, 40)) << s.below(200));
        bits = bitCount(v);
        e = bits <= 1 ? s.below(0x7fffffff) : (1200000ul << s.below(3)) / bits + s.below(2);
    }
#endif
    c.in("v", v); c.in("e", static_cast<int64_t>(e));
    sizeLabels(c, "value", v);
    BigInteger V = makeAny(c, v);
    mpz_class want;
    if (bits <= 1) want = e == 0 ? mpz_class(1) : v == 0 ? mpz_class(0) : (v < 0 && e % 2 ? mpz_class(-1) : mpz_class(1));
    else mpz_pow_ui(want.get_mpz_t(), v.get_mpz_t(), e);
    if (bits > 1 && e > 1 && s.oneIn(6)) {
        unsigned long f = s.below(e + 1);
        c.op("pow(v,f)*pow(v,e-f)"); c.in("f", static_cast<int64_t>(f));
        expectValue(c, "pow(v,f)*pow(v,e-f)", BigInteger::pow(V, static_cast<int>(f)) * BigInteger::pow(V, static_cast<int>(e - f)), want);
    } else {
        c.op("pow(v,e)");
        expectValue(c, "pow(v,e)", BigInteger::pow(V, static_cast<int>(e)), want);
    }
    unchanged(c, "value", V, v);
    sizeLabels(c, "result", want);
    c.nontrivial = bits > 1 && e > 1 && limbCount(want) > 1;
    c.out(want.get_str(16));
}

PROPERTY(C05, "mod_pow(value, exponent >= 0, modulus != 0), sizes covering inline/1-limb/many-limb operands and the reducer switch at 32 limbs; non-trivial when |modulus| > 1, exponent > 1 and |value| > 1") {
    Source& s = c.s;
    mpz_class m, e, v;
    bool stress = false;
    switch (s.weighted({4000, 4000, 6000, 6600, 3000, 4000, 2000, 50})) {
        case 7: m = genLarge(s, 60, 450); break;
        case 5: { // small leading limbs: the reciprocal of the reducer is as long, its estimate as far off, as they get
            uint_array l(31 + s.below(10));
            Rng r(s.u32());
            for (auto& x : l) x = static_cast<uint32_t>(r.next() >> 16);
            l.back() = 1 + s.below(s.flag() ? 1 : 8);
            l[l.size() - 2] >>= s.below(32);
            m = zFromLimbs(l);
            if (s.flag()) { // a sparse one just above a power of the base: the estimate is off by two only for such
                m = pow2(32 * (l.size() - 1)) + (mpz_class(genLimb(s)) << static_cast<unsigned long>(s.below(32 * l.size() - 40)));
                if (s.oneIn(4)) m += genLimb(s);
            }
            stress = s.below(4) != 0;
            break;
        }
        case 0: m = genNative(s); break;
        case 1: m = genInt(s, 6); break;
        case 2: m = genInt(s, 30); break;
        case 3: m = genSized(s, 30 + s.below(12)); break;
        case 4: m = genSized(s, 32 + s.below(60)); break;
        default: {
            unsigned long k = s.flag() ? 32 * (28 + s.below(40)) : 800 + s.below(1500);
            m = pow2(k);
            if (s.oneIn(3)) { // 2^k +- 2^(k/2): the reciprocal's fraction is next to 0 or 1
                mpz_class h = pow2(k / 2);
                if (s.flag()) m += h; else m -= h;
                stress = s.flag();
            }
            m += static_cast<long>(s.oneIn(3) ? s.range(-1000, 1000) : s.range(-2, 2));
        }
    }
    switch (stress && s.below(4) ? 0u : s.weighted({60, 50, 50, 40, 16})) {
        case 0: e = s.below(20); break;
        case 1: e = s.u32(); break;
        case 2: e = genSized(s, 1 + s.below(2)); break;
        case 3: e = genSized(s, 2 + s.below(4)); break;
        default: e = pow2(s.below(160)) + static_cast<long>(s.range(-1, 1));
    }
    if (e < 0) e = -e;
    if (s.oneIn(100) && limbCount(m) < 12) e = genSized(s, 5 + s.below(60)); // long exponent, short modulus
    else if (s.oneIn(500) && limbCount(m) < 4) e = genSized(s, 60 + s.below(400));
    else if (s.oneIn(200) && limbCount(m) < 48) e = genSized(s, 5 + s.below(12));
    switch (stress ? 4u + 2 * s.below(2) : s.weighted({60, 60, 50, 40, 30, 16, 16})) {
        case 0: v = genInt(s, 60); break;
        case 1: v = genNative(s); break;
        case 2: v = genRelated(s, m, 60); break;
        case 6: { // as many limbs as the modulus, which therefore is not reduced first, and large leading ones
            size_t n = limbCount(m);
            if (!n) { v = 0; break; }
            uint_array l(n);
            Rng r(s.u32());
            for (auto& x : l) x = static_cast<uint32_t>(r.next() >> 16);
            l.back() = 0xffffffffu - (l.back() >> (3 + s.below(29)));
            v = zFromLimbs(l);
            if (s.flag()) {
                v = pow2(32 * n) - 1;
                for (unsigned k = s.below(3); k--;) mpz_clrbit(v.get_mpz_t(), s.below(32 * n));
            }
            break;
        }
        case 3: v = genSized(s, 2 * limbCount(m) + s.below(4)); break;
        case 4: v = m * static_cast<unsigned long>(s.below(5)) + static_cast<long>(s.range(-2, 2)); break;
        default: v = genIntL(s, 300, 3000, 100);
    }
    if (limbCount(m) > 60 && limbCount(e) > 2) e = e & 0xffffffffful;
    if (limbCount(m) > 120) e = e & 0x3ff;
    if (s.flag()) v = -v;
    if (s.oneIn(4)) m = -m;
    if (corners(s, v, m) && s.flag()) e = abs(genCorner(s));
    if (m == 0) m = 1;
    unsigned alias = s.oneIn(30) ? 1 + s.below(4) : 0; // the same object in several places
    if (alias > 1 && limbCount(alias == 2 ? v : m) > 20) alias = 1;
    if (alias == 1) v = m;
    else if (alias == 2) { v = abs(v); e = v; }
    else if (alias >= 3) { m = abs(m); e = m; if (alias == 4) v = m; }
    c.in("v", v); c.in("e", e); c.in("m", m);
    sizeLabels(c, "value", v); sizeLabels(c, "exponent", e); sizeLabels(c, "modulus", m);
    BigInteger V = makeAny(c, v), E = makeAny(c, e), M = makeAny(c, m);
    mpz_class want, av = abs(v), am = abs(m);
    mpz_powm(want.get_mpz_t(), av.get_mpz_t(), e.get_mpz_t(), am.get_mpz_t());
    if (v < 0 && mpz_odd_p(e.get_mpz_t())) want = -want;
    switch (alias) {
        case 0: c.op("mod_pow(v,e,m)"); expectValue(c, "mod_pow(v,e,m)", BigInteger::mod_pow(V, E, M), want); break;
        case 1: c.op("mod_pow(m,e,m)"); expectValue(c, "mod_pow(m,e,m)", BigInteger::mod_pow(M, E, M), want); break;
        case 2: c.op("mod_pow(v,v,m)"); expectValue(c, "mod_pow(v,v,m)", BigInteger::mod_pow(V, V, M), want); break;
        case 3: c.op("mod_pow(v,m,m)"); expectValue(c, "mod_pow(v,m,m)", BigInteger::mod_pow(V, M, M), want); break;
        default: c.op("mod_pow(m,m,m)"); V = BigInteger::mod_pow(M, M, M); expectValue(c, "v=mod_pow(m,m,m)", V, want); v = want;
    }
    unchanged(c, "value", V, v); unchanged(c, "exponent", E, e); unchanged(c, "modulus", M, m);
    c.nontrivial = am > 1 && e > 1 && av > 1;
    c.out(want.get_str(16));
}

PROPERTY(C06, "greatest_common_divisor of two values (either order, signs, zero), many built from a common factor or from a random continued fraction so that Lehmer steps take long runs; non-trivial when both are outside the inline int range") {
    Source& s = c.s;
    mpz_class a, b;
    switch (s.weighted({6000, 6000, 9000, 2000, 2400, 20})) {
        case 5: { mpz_class g = genLarge(s, 1, 300); a = g * genLarge(s, 20, 600); b = s.flag() ? genRelated(s, a, 60) : mpz_class(g * genLarge(s, 20, 600));
            if (s.oneIn(4)) b = s.flag() ? genNative(s) : genInt(s, 8);
            if (s.oneIn(4)) { a = genHuge(s); b = s.flag() ? genNative(s) : s.flag() ? genInt(s, 3) : mpz_class(a + genNative(s)); }
            break; }
        case 0: a = genInt(s, 60); b = genRelated(s, a, 60); corners(s, a, b); break;
        case 1: { mpz_class g = genMag(s, 20); a = g * genMag(s, 30); b = g * genMag(s, 30); break; }
        case 2: { // continued fraction: x, y <- q*x + y, x
            mpz_class x = s.flag() ? mpz_class(1) : genSized(s, 1 + s.below(4)), y = 0;
            size_t target = 1 + s.below(s.oneIn(4) ? 40 : 9);
            unsigned style = s.below(4);
            for (unsigned i = 0; i < 2000 && limbCount(x) <= target; i++) {
                mpz_class q;
                switch (style) {
                    case 0: q = 1; break;                                   // Fibonacci
                    case 1: q = 1 + s.below(4); break;
                    case 2: q = s.oneIn(8) ? mpz_class(genLimb(s)) : mpz_class(1 + s.below(3)); break;
                    default: q = s.oneIn(10) ? genSized(s, 1 + s.below(3)) : mpz_class(1 + s.u16());
                }
                if (q == 0) q = 1;
                mpz_class t = q * x + y; y = x; x = t;
            }
            a = x; b = y;
            break;
        }
        case 3: a = genNative(s); b = genInt(s, 12); break;
        default: { size_t n = 2 + s.below(4); a = genSized(s, n); b = genSized(s, s.flag() ? n : 1 + s.below(n)); }
    }
    if (s.flag()) std::swap(a, b);
    if (s.oneIn(3)) a = -a;
    if (s.oneIn(3)) b = -b;
    c.in("a", a); c.in("b", b);
    sizeLabels(c, "a", a); sizeLabels(c, "b", b);
    mpz_class g = gcd(a, b);
    sizeLabels(c, "gcd", g);
    BigInteger A = makeAny(c, a), B = makeAny(c, b);
    mpz_class aa = abs(a), ab = abs(b);
    if (s.oneIn(10) && isBig(a) && isBig(b)) {
        c.op("gcd(limbs,limbs)");
        if (aa < ab) std::swap(aa, ab);
        expectValue(c, "greatest_common_divisor(limbs,limbs)", BigInteger::greatest_common_divisor(limbsOf(aa), limbsOf(ab)), g);
    } else if (s.oneIn(60)) {
        c.op("gcd(a,a)");
        expectValue(c, "greatest_common_divisor(a,a)", BigInteger::greatest_common_divisor(A, A), aa);
        unchanged(c, "a", A, a);
        A = BigInteger::greatest_common_divisor(A, B);
        expectValue(c, "a=greatest_common_divisor(a,b)", A, g);
    } else {
        c.op("gcd(a,b)");
        expectValue(c, "greatest_common_divisor(a,b)", BigInteger::greatest_common_divisor(A, B), g);
        unchanged(c, "a", A, a); unchanged(c, "b", B, b);
    }
    c.nontrivial = isBig(a) && isBig(b);
    c.out(g.get_str(16));
}
