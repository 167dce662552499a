// C07-C09, C15, C16: shifts, bitwise logic, byte arrays, value queries, limb-level access.
#include "gen.h"
#include <algorithm>
#include <climits>

static void same(Ctx& c, const char* who, const BigInteger& x, const mpz_class& v) {
    mpz_class g = val(x);
    if (g != v) c.fail(std::string(who) + " was modified: had " + showZ(v) + ", now " + showZ(g));
}

// values where shifting crosses limb boundaries: low limbs all zero or all one
static mpz_class genShiftee(Source& s) {
    mpz_class v;
    switch (s.weighted({90, 40, 40, 30})) {
        case 0: v = genIntL(s, 60, 3000); break;
        case 1: v = genSized(s, 1 + s.below(4)) << (32 * s.below(s.oneIn(100) ? 2000 : 6)); break;
        case 2: v = pow2(32 * (1 + s.below(s.oneIn(100) ? 2000 : 8))) - genLimb(s); break;
        default: v = (genSized(s, 1 + s.below(3)) << (32 * s.below(5))) + genLimb(s);
    }
    return s.flag() ? mpz_class(-v) : v;
}

#ifdef GIANT // only where nothing slows the library down
// the largest left shifts there are: the result takes 256 MB and a second or two, so only its shape is looked at
static void giantShift(Ctx& c, mpz_class v) {
    static const int ks[] = {INT_MAX, INT_MIN, INT_MAX - 31, INT_MAX - 1, INT_MIN + 1, 1 << 30};
    Source& s = c.s;
    int k = s.pick(ks);
    if (limbCount(v) > 4) v = genInt(s, 4);
    c.op("giant left shift and back"); c.in("v", v); c.in("k", k);
    c.label("left shift by 2^30 or more");
    BigInteger V = make(v), W = k > 0 ? V << k : V >> k;
    uint64_t n = k > 0 ? static_cast<uint64_t>(k) : 0 - static_cast<uint64_t>(static_cast<int64_t>(k));
    if (v != 0) {
        uint_array l = W.get_bits(), top = limbsOf(mpz_class(abs(v) << (n % 32)));
        REQUIRE(c, l.size() == n / 32 + top.size(), "the number of limbs of v shifted left");
        REQUIRE(c, std::equal(top.begin(), top.end(), l.end() - static_cast<long>(top.size())), "the high limbs of v shifted left");
        REQUIRE(c, std::all_of(l.begin(), l.end() - static_cast<long>(top.size()), [](uint32_t x) { return x == 0; }), "the low limbs of v shifted left are zero");
    }
    REQUIRE(c, W.sign() == sgn(v), "the sign of v shifted left");
    same(c, "v", V, v);
    if (k > 0) W >>= k; else W <<= k;
    expectValue(c, "shifted left and back", W, v);
    c.nontrivial = v != 0;
}
#endif

PROPERTY(C07, "one shift (<<, >>, <<=, >>=) by an amount in [-6400, 6400], rarely up to 2^20, or a huge right shift; non-trivial when the value is non-zero, the amount is non-zero and the value or the result is outside the inline int range") {
    Source& s = c.s;
    mpz_class v = genShiftee(s);
    int k;
    switch (s.weighted({60, 60, 60, 40, 16})) {
        case 0: k = static_cast<int>(s.below(34)); break;
        case 1: k = 32 * static_cast<int>(s.below(12)) + static_cast<int>(s.range(-1, 1)); break;
        case 2: k = static_cast<int>(s.below(420)); break;
        case 3: { long n = static_cast<long>(bitCount(v)); k = static_cast<int>(n + s.range(-2, 34)); break; }
        default: k = static_cast<int>(s.below(6400)); break;
    }
    if (s.oneIn(4)) k = -k;
    unsigned op = s.below(6);
    if (s.oneIn(40)) { // right shift by an enormous amount
        static const int huge[] = {INT_MAX, INT_MAX - 1, 1 << 30, 1 << 20, INT_MAX - 31, INT_MAX - 32};
        k = s.pick(huge);
        op = s.below(4);
        if (op < 2) k = s.oneIn(4) ? INT_MIN : -k;
    }
    else if (s.oneIn(200)) k = static_cast<int>(s.oneIn(8) ? s.range(-(1 << 22), 1 << 22) : s.range(-(1 << 20), 1 << 20)); // far beyond the size of the value
#ifdef GIANT
    if (s.oneIn(1000) && s.oneIn(300)) { giantShift(c, v); return; }
#endif
    c.in("v", v); c.in("k", k);
    sizeLabels(c, "value", v);
    BigInteger V = makeAny(c, v);
    mpz_class left, right, want;
    long kk = k;
    auto shl = [&](const mpz_class& x, long n) { mpz_class r; if (n >= 0) mpz_mul_2exp(r.get_mpz_t(), x.get_mpz_t(), n); else mpz_fdiv_q_2exp(r.get_mpz_t(), x.get_mpz_t(), -n); return r; };
    switch (op) {
        case 0: c.op("v<<k"); want = shl(v, kk); expectValue(c, "v<<k", V << k, want); same(c, "v", V, v); break;
        case 1: { c.op("v<<=k"); want = shl(v, kk); BigInteger& r = (V <<= k); expectValue(c, "v<<=k", V, want); REQUIRE(c, &r == &V, "<<= returns its target"); break; }
        case 2: c.op("v>>k"); want = shl(v, -kk); expectValue(c, "v>>k", V >> k, want); same(c, "v", V, v); break;
        case 3: { c.op("v>>=k"); want = shl(v, -kk); BigInteger& r = (V >>= k); expectValue(c, "v>>=k", V, want); REQUIRE(c, &r == &V, ">>= returns its target"); break; }
        case 4: { c.op("(v<<k)>>k"); int j = k < 0 ? -k : k; want = v; expectValue(c, "(v<<k)>>k", (V << j) >> j, v); break; }
        default: { // splitting a shift
            int j = k < 0 ? -k : k, i = static_cast<int>(s.below(j + 1));
            c.op("(v>>i)>>(k-i)"); c.in("i", i);
            want = shl(v, -static_cast<long>(j));
            expectValue(c, "(v>>i)>>(k-i)", (V >> i) >> (j - i), want);
        }
    }
    if (v < 0) c.label("negative value");
    if (k % 32 == 0) c.label("whole-limb amount");
    c.nontrivial = v != 0 && k != 0 && (isBig(v) || isBig(want));
    c.out(want.get_str(16));
}

PROPERTY(C08, "one bitwise operation (&, |, ^, ~ and compound forms, aliased operands, De Morgan identities); non-trivial when an operand is outside the inline int range and both operands are non-zero") {
    Source& s = c.s;
    mpz_class a, b;
    if (s.oneIn(3)) { a = genShiftee(s); b = s.flag() ? genShiftee(s) : genRelated(s, a, 60); }
    else { a = genIntL(s, 90, 3000); b = genRelated(s, a, 90); }
    corners(s, a, b);
    if (s.flag()) std::swap(a, b);
    unsigned op = s.below(12);
    c.in("a", a); c.in("b", b);
    sizeLabels(c, "a", a); sizeLabels(c, "b", b);
    BigInteger A = makeAny(c, a), B = makeAny(c, b);
    mpz_class want;
    switch (op) {
        case 0: c.op("a&b"); want = a & b; expectValue(c, "a&b", A & B, want); same(c, "a", A, a); break;
        case 1: c.op("a|b"); want = a | b; expectValue(c, "a|b", A | B, want); same(c, "a", A, a); break;
        case 2: c.op("a^b"); want = a ^ b; expectValue(c, "a^b", A ^ B, want); same(c, "a", A, a); break;
        case 3: { c.op("a&=b"); want = a & b; BigInteger& r = (A &= B); expectValue(c, "a&=b", A, want); REQUIRE(c, &r == &A, "&= returns its target"); break; }
        case 4: { c.op("a|=b"); want = a | b; BigInteger& r = (A |= B); expectValue(c, "a|=b", A, want); REQUIRE(c, &r == &A, "|= returns its target"); break; }
        case 5: { c.op("a^=b"); want = a ^ b; BigInteger& r = (A ^= B); expectValue(c, "a^=b", A, want); REQUIRE(c, &r == &A, "^= returns its target"); break; }
        case 6: c.op("~a"); want = ~a; expectValue(c, "~a", ~A, want); same(c, "a", A, a); break;
        case 7: c.op("a&=a"); want = a; A &= A; expectValue(c, "a&=a", A, a); break;
        case 8: c.op("a|=a"); want = a; A |= A; expectValue(c, "a|=a", A, a); break;
        case 9: c.op("a^=a"); want = 0; A ^= A; expectValue(c, "a^=a", A, 0); break;
        case 10: { c.op("~(a&b)==~a|~b"); want = ~(a & b); BigInteger t = A & B, na = ~A, nb = ~B; expectValue(c, "~(a&b)", ~t, want); expectValue(c, "~a|~b", na | nb, want); break; }
        default: { c.op("(a^b)^b"); want = a; expectValue(c, "(a^b)^b", (A ^ B) ^ B, a); }
    }
    same(c, "b", B, b);
    c.nontrivial = (isBig(a) || isBig(b)) && a != 0 && b != 0;
    c.out(want.get_str(16));
}

static mpz_class fromBytes(byte_array b, bool isUnsigned, bool be) { // independent reading of the contract
    if (be) for (size_t i = 0; i < b.size() / 2; i++) std::swap(b[i], b[b.size() - 1 - i]);
    mpz_class v;
    if (b.empty()) return v;
    mpz_import(v.get_mpz_t(), b.size(), -1, 1, 0, 0, b.data());
    if (!isUnsigned && (b.back() & 0x80)) v -= pow2(8 * b.size());
    return v;
}

PROPERTY(C09, "building a value from an arbitrary byte array (signed/unsigned, little/big endian, padded) or exporting one and importing it again; non-trivial when the array has more than 4 bytes or is non-minimal") {
    Source& s = c.s;
#ifdef GIANT
    if (wantGiant(s, 1000)) {
        Giant g = genGiant(c);
        byte_array b = g.V.to_byte_array(), want = twosBytes(g.v);
        REQUIRE(c, b == want, "to_byte_array of about 2^31 bits");
        BigInteger X(b);
        REQUIRE(c, X == g.V, "BigInteger(bytes) of about 2^31 bits");
        std::reverse(want.begin(), want.end());
        REQUIRE(c, g.V.to_byte_array(false, true) == want, "to_byte_array of about 2^31 bits, big endian");
        X = BigInteger(want, false, true);
        REQUIRE(c, X == g.V, "BigInteger(bytes) of about 2^31 bits, big endian");
        return;
    }
#endif
    bool uns = s.flag(), be = s.flag();
    if (s.oneIn(3)) { // arbitrary bytes in
        byte_array b;
        unsigned n = s.weighted({30, 60, 60, 30});
        size_t len = n == 0 ? s.below(6) : n == 1 ? 1 + s.below(12) : n == 2 ? 1 + s.below(40) : s.below(300);
        if (s.oneIn(400)) len = s.oneIn(30) ? 65528 + s.below(200000) : s.below(12000);
        static const unsigned char sp[] = {0, 0xff, 0x80, 1, 0x7f, 0xfe, 0x81};
        if (len >= 65528) { b = twosBytes(genHuge(s)); b.resize(len, s.flag() ? 0 : 0xff); } // few choices
        else for (size_t i = 0; i < len; i++) { unsigned x = s.u8(); b.push_back(x < 160 ? sp[x % sizeof sp] : s.u8()); }
        unsigned pad = s.oneIn(2) ? s.below(s.oneIn(50) ? 600 : 9) : 0;
        unsigned char pv = s.flag() ? 0 : 0xff;
        b.insert(be ? b.begin() : b.end(), pad, pv);
        c.op("from bytes"); c.inBytes("bytes", b); c.in("unsigned", uns); c.in("bigEndian", be);
        mpz_class want = fromBytes(b, uns, be);
        BigInteger X(b, uns, be);
        expectValue(c, "BigInteger(bytes)", X, want);
        c.label(std::string("from bytes") + (uns ? " unsigned" : " signed") + (be ? " BE" : " LE"));
        if (b.size() % 4) c.label("partial limb");
        c.nontrivial = b.size() > 4 || pad;
        c.out(want.get_str(16));
        return;
    }
    mpz_class v = s.oneIn(3) ? genShiftee(s) : s.oneIn(3) ? genNative(s) : genIntL(s, 60, 3000);
    if (s.oneIn(4)) { v = pow2(8 * s.below(s.oneIn(100) ? 9000 : 40) + (s.flag() ? 7 : 0)) + static_cast<long>(s.range(-1, 1)); if (s.flag()) v = -v; }
    if (uns && v < 0) v = -v;
    c.op("to bytes"); c.in("v", v); c.in("unsigned", uns); c.in("bigEndian", be);
    sizeLabels(c, "v", v);
    BigInteger V = makeAny(c, v);
    byte_array want = uns ? magBytes(v, be) : twosBytes(v, be);
    byte_array got = V.to_byte_array(uns, be);
    if (got != want) c.fail("to_byte_array gave " + hexOf(got.data(), got.size()) + ", the minimal encoding is " + hexOf(want.data(), want.size()));
    REQUIRE(c, V.get_byte_count(uns) == static_cast<int>(want.size()), "get_byte_count is the length of to_byte_array");
    int written = -1;
    byte_array none = V.to_byte_array(BigInteger::GetBytesMode::Count, uns, be, &written);
    REQUIRE(c, written == static_cast<int>(want.size()) && none.empty(), "Count mode reports the length only");
    int ignored = 0;
    REQUIRE(c, V.to_byte_array(BigInteger::GetBytesMode::AllocateArray, uns, be, &ignored) == want, "AllocateArray mode gives the same bytes");
    REQUIRE(c, V.to_byte_array(BigInteger::GetBytesMode::AllocateArray) == twosBytes(v), "AllocateArray mode without a place for the length gives the same bytes");
    REQUIRE(c, V.to_byte_array(BigInteger::GetBytesMode::AllocateArray, uns, be) == want, "AllocateArray mode without a place for the length, with options");
    REQUIRE(c, V.to_byte_array(BigInteger::GetBytesMode::Count, uns, be).empty(), "Count mode without a place for the length");
    expectValue(c, "BigInteger(v.to_byte_array())", BigInteger(got, uns, be), v);
    same(c, "v", V, v);
    c.nontrivial = want.size() > 4;
    c.out(hexOf(want.data(), want.size()));
}

#ifdef GIANT
PROPERTY(C09huge, "a byte array of about 2^31 bytes (8 GB in use) read and written back; always non-trivial") {
    Source& s = c.s;
    bool be = s.flag(), neg = s.flag();
    size_t n = static_cast<size_t>((int64_t(1) << 31) + s.range(-6, 6));
    c.op("about 2^31 bytes"); c.in("n", static_cast<int64_t>(n)); c.in("bigEndian", be); c.in("negative", neg);
    c.nontrivial = true;
    byte_array b(n, 0);
    auto at = [&](size_t i) -> unsigned char& { return b[be ? n - 1 - i : i]; };
    at(n - 1) = neg ? 0xc0 : 0x30;
    for (int k = 0; k < 8; k++) at(s.flag() ? s.below(64) : n - 1 - s.below(64)) ^= static_cast<unsigned char>(s.below(16));
    for (int k = 0; k < 8; k++) at(s.u32() % n) = s.u8() & 0x3f;
    at(n - 1) = neg ? 0xc0 : 0x30;
    BigInteger X(b, false, be);
    REQUIRE(c, X.sign() == (neg ? -1 : 1), "the sign of BigInteger(about 2^31 bytes)");
    REQUIRE(c, X.get_bit_length() == static_cast<uint64_t>(n) * 8 - 2, "the bit length of BigInteger(about 2^31 bytes)");
    REQUIRE(c, X.to_byte_array(false, be) == b, "BigInteger(about 2^31 bytes).to_byte_array()");
    try {
        int k = X.get_byte_count();
        REQUIRE(c, k >= 0 && static_cast<size_t>(k) == n, "get_byte_count of about 2^31 bytes");
    }
    catch (const std::overflow_error&) { REQUIRE(c, n > 0x7fffffff, "get_byte_count threw although the number fits an int"); }
}
#endif

PROPERTY(C15, "all value queries (is_zero, is_one, is_even, is_power_of_two, sign, get_bit_length, get_byte_count) on one value, many at +-2^k+d; non-trivial when the value is outside the inline int range") {
    Source& s = c.s;
#ifdef GIANT
    if (wantGiant(s, 600)) {
        Giant g = genGiant(c);
        mpz_class m = g.v >= 0 ? g.v : mpz_class(-g.v - 1);
        uint64_t bl = bitCount(m);
        REQUIRE(c, g.V.get_bit_length() == bl, "get_bit_length of about 2^31 bits is " + std::to_string(bl) + ", got " + std::to_string(g.V.get_bit_length()));
        REQUIRE(c, g.V.get_byte_count() == static_cast<int>(bl / 8 + 1), "get_byte_count of about 2^31 bits");
        REQUIRE(c, g.V.is_power_of_two() == (g.v > 0 && mpz_popcount(g.v.get_mpz_t()) == 1), "is_power_of_two of about 2^31 bits");
        REQUIRE(c, g.V.is_even() == (mpz_even_p(g.v.get_mpz_t()) != 0) && g.V.sign() == sgn(g.v) && !g.V.is_zero() && !g.V.is_one(), "queries of about 2^31 bits");
        return;
    }
#endif
    mpz_class v = s.oneIn(2) ? genNative(s) : s.oneIn(2) ? genShiftee(s) : genIntL(s, 60, 3000);
    if (s.oneIn(3)) { v = pow2(s.below(s.oneIn(100) ? 100000 : 700)) + static_cast<long>(s.range(-1, 1)); if (s.flag()) v = -v; }
    if (s.oneIn(6)) { v = pow2(s.below(300)) + pow2(s.below(300)); if (s.flag()) v = -v; } // two bits set
    c.op("queries"); c.in("v", v);
    sizeLabels(c, "v", v);
    BigInteger V = makeAny(c, v);
    REQUIRE(c, V.is_zero() == (v == 0), "is_zero");
    REQUIRE(c, V.is_one() == (v == 1), "is_one");
    REQUIRE(c, V.is_even() == (mpz_even_p(v.get_mpz_t()) != 0), "is_even");
    bool p2 = v > 0 && mpz_popcount(v.get_mpz_t()) == 1;
    REQUIRE(c, V.is_power_of_two() == p2, "is_power_of_two");
    REQUIRE(c, V.sign() == sgn(v), "sign() is -1, 0 or 1");
    mpz_class m = v >= 0 ? v : mpz_class(-v - 1);
    uint64_t bl = bitCount(m);
    REQUIRE(c, V.get_bit_length() == bl, "get_bit_length is " + std::to_string(bl) + ", got " + std::to_string(V.get_bit_length()));
    REQUIRE(c, V.get_byte_count() == static_cast<int>(bl / 8 + 1), "get_byte_count()");
    if (v >= 0) REQUIRE(c, V.get_byte_count(true) == static_cast<int>(v == 0 ? 1 : (bl + 7) / 8), "get_byte_count(true)");
    same(c, "v", V, v);
    if (s.oneIn(16)) { expectValue(c, "zero()", BigInteger::zero(), 0); expectValue(c, "one()", BigInteger::one(), 1); expectValue(c, "minus_one()", BigInteger::minus_one(), -1); expectValue(c, "BigInteger()", BigInteger(), 0); }
    if (p2) c.label("power of two");
    c.nontrivial = isBig(v);
    c.out(std::to_string(bl) + (p2 ? "p" : "n"));
}

PROPERTY(C16, "limb-level construction and export: BigInteger(limbs, negative) with leading zero limbs, to_uint32_array, get_bits/sign_internal, the limb add/subtract members; non-trivial when at least one limb array has two or more limbs") {
    Source& s = c.s;
#ifdef GIANT
    if (wantGiant(s, 1000)) {
        Giant g = genGiant(c);
        uint_array d = g.V.to_uint32_array();
        uint32_t ext = g.v < 0 ? 0xffffffffu : 0;
        REQUIRE(c, !d.empty() && (d.back() >> 31) == (ext >> 31), "the sign of to_uint32_array of about 2^31 bits");
        REQUIRE(c, d.size() == bitCount(g.v >= 0 ? g.v : mpz_class(-g.v - 1)) / 32 + 1, "to_uint32_array of about 2^31 bits is minimal");
        mpz_class m = zFromLimbs(d);
        if (g.v < 0) m -= pow2(32 * d.size());
        REQUIRE(c, m == g.v, "to_uint32_array of about 2^31 bits");
        return;
    }
#endif
    mpz_class v = s.oneIn(3) ? genShiftee(s) : s.oneIn(4) ? genNative(s) : genIntL(s, 60, 3000);
    sizeLabels(c, "v", v);
    switch (s.below(4)) {
        case 0: {
            uint_array l = limbsOf(abs(v));
            size_t pad = s.below(5);
            l.insert(l.end(), pad, 0);
            c.op("BigInteger(limbs,negative)"); c.in("v", v); c.in("pad", static_cast<int64_t>(pad));
            bool neg = v < 0 || (v == 0 && s.flag());
            expectValue(c, "BigInteger(limbs, negative)", BigInteger(l, neg), v);
            if (isBig(v)) expectValue(c, "BigInteger(sign, limbs)", BigInteger(v < 0 ? -1 : 1, limbsOf(abs(v))), v);
            c.nontrivial = l.size() >= 2;
            c.out(v.get_str(16));
            return;
        }
        case 1: {
            c.op("to_uint32_array"); c.in("v", v);
            BigInteger V = makeAny(c, v);
            uint_array d = V.to_uint32_array();
            mpz_class back = zFromLimbs(d);
            if (!d.empty() && (d.back() & 0x80000000u)) back -= pow2(32 * d.size());
            REQUIRE(c, back == v, "to_uint32_array is the two's complement of the value, got " + showZ(back));
            mpz_class m = v >= 0 ? v : mpz_class(-v - 1);
            REQUIRE(c, d.size() == bitCount(m) / 32 + 1 || v == 0, "to_uint32_array is minimal");
            same(c, "v", V, v);
            c.nontrivial = d.size() >= 2;
            for (auto x : d) c.out(std::to_string(x));
            return;
        }
        case 2: {
            c.op("normal form"); c.in("v", v);
            BigInteger V = makeVia(v, s.below(ROUTES));
            uint_array bits = V.get_bits();
            if (isBig(v)) {
                REQUIRE(c, bits == limbsOf(abs(v)), "get_bits is the magnitude without leading zeros");
                REQUIRE(c, V.sign_internal() == sgn(v), "sign_internal is the sign");
            } else {
                REQUIRE(c, bits.empty(), "small values keep no limbs");
                REQUIRE(c, V.sign_internal() == v.get_si(), "small values are held inline");
            }
            c.nontrivial = bits.size() >= 2;
            c.out(v.get_str(16));
            return;
        }
        default: {
            mpz_class w = genRelated(s, v, 60);
            if ((v < 0) != (w < 0)) w = -w; // the members take operands of the same sign
            if ((v < 0) != (w < 0)) return; // zero against negative
            bool sub = s.flag();
            c.op(sub ? "subtract(limbs)" : "add(limbs)"); c.in("v", v); c.in("w", w);
            BigInteger V = make(v), W = make(w), T(17);
            BigInteger r = sub ? T.subtract(V.get_bits(), V.sign_internal(), W.get_bits(), W.sign_internal())
                               : T.add(V.get_bits(), V.sign_internal(), W.get_bits(), W.sign_internal());
            mpz_class want = sub ? mpz_class(v - w) : mpz_class(v + w);
            expectValue(c, sub ? "subtract(limbs)" : "add(limbs)", r, want);
            same(c, "this", T, 17);
            c.nontrivial = limbCount(v) >= 2 || limbCount(w) >= 2;
            c.out(want.get_str(16));
        }
    }
}
