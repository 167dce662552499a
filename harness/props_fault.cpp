// C20: every allocation an operation makes can fail.  operator new is replaced in this program: it counts the live
// blocks and, while armed, makes the k-th allocation throw std::bad_alloc.
#include "gen.h"
#include "exceptions.h"
#include <cstdlib>
#include <functional>
#include <new>
#include <stdexcept>

static long liveBlocks, allocs, countdown = -1;
static bool armed, fired;
static void* grab(size_t n) {
    if (armed) {
        allocs++;
        if (countdown >= 0 && countdown-- == 0) { fired = true; throw std::bad_alloc(); }
    }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    liveBlocks++;
    return p;
}
static void drop(void* p) { if (p) { liveBlocks--; free(p); } }
void* operator new(size_t n) { return grab(n); }
void* operator new[](size_t n) { return grab(n); }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }

namespace {
struct Objs { BigInteger A, B, E, T; };
struct Op { const char* name; bool inPlace; };
const Op ops[] = {
    {"A+B", false}, {"A-B", false}, {"A*B", false}, {"A/B", false}, {"A%B", false}, {"A&B", false}, {"A|B", false}, {"A^B", false},
    {"A<<k", false}, {"A>>k", false}, {"-A", false}, {"~A", false}, {"abs(A)", false}, {"gcd(A,B)", false}, {"mod_pow(A,E,B)", false},
    {"pow(A,e)", false}, {"parse", false}, {"BigInteger(bytes)", false}, {"BigInteger(limbs)", false}, {"BigInteger(double)", false},
    {"copy", false}, {"div_rem", false},
    {"T+=B", true}, {"T-=B", true}, {"T*=B", true}, {"T/=B", true}, {"T%=B", true}, {"T&=B", true}, {"T|=B", true}, {"T^=B", true},
    {"T<<=k", true}, {"T>>=k", true}, {"++T", true}, {"--T", true}, {"T=A", true}, {"T=native", true}, {"try_parse", true}, {"div_rem(A,B,T)", true},
    {"to_string", false}, {"to_byte_array", false}, {"to_uint32_array", false}, {"A/0", false}, {"T++", true}, {"negate", false},
    {"T--", true}, {"T+=T", true}, {"T-=T", true}, {"T*=T", true}, {"T^=T", true}, {"T=mod_pow(T,E,B)", true}, {"T=T*B+T", true}, {"B=div_rem(T,B,T)", true},
    {"to_byte_array(BE)", false}, {"gcd(limbs)", false}, {"queries", false}, {"log", false}, {"double", false}, {"hash", false}, {"compare", false},
    {"BigInteger(bytes, unsigned BE)", false}, {"A-(-B)", false}, {"pow(A,-1)", false}, {"swap", true}, {"mixed native", false},
};
bool wellFormed(const BigInteger& x) {
    uint_array b = x.get_bits();
    if (b.empty()) return x.sign_internal() != INT32_MIN;
    return (x.sign_internal() == 1 || x.sign_internal() == -1) && b.back() != 0 && (b.size() > 1 || b[0] >= 0x80000000u);
}
}

PROPERTY(C20, "one operation on random operands, repeated with its 1st, 2nd, ... allocation failing; after each failure the operation is repeated on the same objects; in the cold build every case is the first thing its process does; counted non-trivial when at least two different allocations of the operation were made to fail, one in the cold build") {
    Source& s = c.s;
    unsigned oi = s.below(sizeof ops / sizeof *ops);
    const Op& op = ops[oi];
    std::string name = op.name;
    size_t cap = s.oneIn(6) ? (s.oneIn(12) ? 320 : 80) : 12;
    mpz_class a = genInt(s, cap), b = genRelated(s, a, cap), t = genInt(s, s.oneIn(6) ? 80 : 8), e = s.flag() ? mpz_class(s.u8()) : genMag(s, 2);
    corners(s, a, b);
    if (b == 0) b = 3;
    if (limbCount(b) > 100 && e > 0xffff) e = e & 0xff;
    int k = static_cast<int>(s.below(150)), pe = static_cast<int>(s.below(6));
    double d = genDouble(s);
    int64_t n = static_cast<int64_t>(s.u64()) >> s.below(64);
    c.op(op.name); c.in("a", a); c.in("b", b); c.in("e", e); c.in("t", t); c.in("k", k); c.in("pe", pe); c.inD("d", d); c.in("n", n);
    std::string text = a.get_str();
    byte_array bytes = twosBytes(a), wantBytes = twosBytes(a);
    uint_array limbs = limbsOf(abs(a));
    uint_array limbsB = limbsOf(abs(b));
    bool neg = a < 0;
    mpz_class aa = abs(a), ab = abs(b), want, want2;
    auto pick = [&](const char* x) { return name == x; };
    // expected value
    if (pick("A+B")) want = a + b; else if (pick("A-B")) want = a - b; else if (pick("A*B")) want = a * b;
    else if (pick("A/B") || pick("div_rem") || pick("div_rem(A,B,T)")) { mpz_tdiv_qr(want.get_mpz_t(), want2.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); }
    else if (pick("A%B")) mpz_tdiv_r(want.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
    else if (pick("A&B")) want = a & b; else if (pick("A|B")) want = a | b; else if (pick("A^B")) want = a ^ b;
    else if (pick("A<<k")) want = a << k; else if (pick("A>>k")) mpz_fdiv_q_2exp(want.get_mpz_t(), a.get_mpz_t(), k);
    else if (pick("-A") || pick("negate")) want = -a; else if (pick("~A")) want = ~a; else if (pick("abs(A)")) want = aa; else if (pick("gcd(A,B)")) want = gcd(a, b);
    else if (pick("mod_pow(A,E,B)")) { mpz_powm(want.get_mpz_t(), aa.get_mpz_t(), e.get_mpz_t(), ab.get_mpz_t()); if (neg && mpz_odd_p(e.get_mpz_t())) want = -want; }
    else if (pick("pow(A,e)")) mpz_pow_ui(want.get_mpz_t(), a.get_mpz_t(), pe);
    else if (pick("BigInteger(double)")) mpz_set_d(want.get_mpz_t(), d);
    else if (pick("T+=B")) want = t + b; else if (pick("T-=B")) want = t - b; else if (pick("T*=B")) want = t * b;
    else if (pick("T/=B")) mpz_tdiv_q(want.get_mpz_t(), t.get_mpz_t(), b.get_mpz_t()); else if (pick("T%=B")) mpz_tdiv_r(want.get_mpz_t(), t.get_mpz_t(), b.get_mpz_t());
    else if (pick("T&=B")) want = t & b; else if (pick("T|=B")) want = t | b; else if (pick("T^=B")) want = t ^ b;
    else if (pick("T<<=k")) want = t << k; else if (pick("T>>=k")) mpz_fdiv_q_2exp(want.get_mpz_t(), t.get_mpz_t(), k);
    else if (pick("++T") || pick("T++")) want = t + 1; else if (pick("--T") || pick("T--")) want = t - 1; else if (pick("T=native")) want = static_cast<long>(n);
    else if (pick("T+=T")) want = t + t; else if (pick("T-=T") || pick("T^=T")) want = 0; else if (pick("T*=T")) want = t * t; else if (pick("T=T*B+T")) want = t * b + t;
    else if (pick("T=mod_pow(T,E,B)")) { mpz_class at = abs(t); mpz_powm(want.get_mpz_t(), at.get_mpz_t(), e.get_mpz_t(), ab.get_mpz_t()); if (t < 0 && mpz_odd_p(e.get_mpz_t())) want = -want; }
    else if (pick("B=div_rem(T,B,T)")) mpz_tdiv_qr(want2.get_mpz_t(), want.get_mpz_t(), t.get_mpz_t(), b.get_mpz_t());
    else if (pick("gcd(limbs)")) want = gcd(a, b); else if (pick("A-(-B)")) want = a + b; else if (pick("BigInteger(bytes, unsigned BE)")) want = aa;
    else if (pick("mixed native")) want = (a + static_cast<long>(n)) * static_cast<long>(n) - k;
    else want = a;
    byte_array magnitude = magBytes(aa, true);
    int order = cmp(a, b);
    order = (order > 0) - (order < 0);

    auto run = [&](Objs& o, BigInteger& R, std::string& S, byte_array& Y, uint_array& U, bool& flag) {
        if (pick("A+B")) R = o.A + o.B; else if (pick("A-B")) R = o.A - o.B; else if (pick("A*B")) R = o.A * o.B; else if (pick("A/B")) R = o.A / o.B;
        else if (pick("A%B")) R = o.A % o.B; else if (pick("A&B")) R = o.A & o.B; else if (pick("A|B")) R = o.A | o.B; else if (pick("A^B")) R = o.A ^ o.B;
        else if (pick("A<<k")) R = o.A << k; else if (pick("A>>k")) R = o.A >> k; else if (pick("-A")) R = -o.A; else if (pick("~A")) R = ~o.A;
        else if (pick("negate")) R = BigInteger::negate(o.A);
        else if (pick("abs(A)")) R = BigInteger::abs(o.A); else if (pick("gcd(A,B)")) R = BigInteger::greatest_common_divisor(o.A, o.B);
        else if (pick("mod_pow(A,E,B)")) R = BigInteger::mod_pow(o.A, o.E, o.B); else if (pick("pow(A,e)")) R = BigInteger::pow(o.A, pe);
        else if (pick("parse")) R = BigInteger::parse(text); else if (pick("BigInteger(bytes)")) R = BigInteger(bytes);
        else if (pick("BigInteger(limbs)")) R = BigInteger(limbs, neg); else if (pick("BigInteger(double)")) R = BigInteger(d);
        else if (pick("copy")) { BigInteger q(o.A); R = std::move(q); }
        else if (pick("div_rem")) { BigInteger rem; R = BigInteger::div_rem(o.A, o.B, rem); }
        else if (pick("T+=B")) o.T += o.B; else if (pick("T-=B")) o.T -= o.B; else if (pick("T*=B")) o.T *= o.B; else if (pick("T/=B")) o.T /= o.B; else if (pick("T%=B")) o.T %= o.B;
        else if (pick("T&=B")) o.T &= o.B; else if (pick("T|=B")) o.T |= o.B; else if (pick("T^=B")) o.T ^= o.B; else if (pick("T<<=k")) o.T <<= k; else if (pick("T>>=k")) o.T >>= k;
        else if (pick("++T")) ++o.T; else if (pick("--T")) --o.T; else if (pick("T++")) o.T++; else if (pick("T=A")) o.T = o.A; else if (pick("T=native")) o.T = n;
        else if (pick("try_parse")) flag = BigInteger::try_parse(text, o.T);
        else if (pick("div_rem(A,B,T)")) R = BigInteger::div_rem(o.A, o.B, o.T);
        else if (pick("to_string")) S = o.A.to_string(); else if (pick("to_byte_array")) Y = o.A.to_byte_array(); else if (pick("to_uint32_array")) U = o.A.to_uint32_array();
        else if (pick("T--")) o.T--; else if (pick("T+=T")) o.T += o.T; else if (pick("T-=T")) o.T -= o.T; else if (pick("T*=T")) o.T *= o.T; else if (pick("T^=T")) o.T ^= o.T;
        else if (pick("T=mod_pow(T,E,B)")) o.T = BigInteger::mod_pow(o.T, o.E, o.B); else if (pick("T=T*B+T")) o.T = o.T * o.B + o.T;
        else if (pick("B=div_rem(T,B,T)")) R = BigInteger::div_rem(o.T, o.B, o.T);
        else if (pick("to_byte_array(BE)")) Y = o.A.to_byte_array(false, true);
        else if (pick("gcd(limbs)")) { if (isBig(a) && isBig(b)) R = aa < ab ? BigInteger::greatest_common_divisor(limbsB, limbs) : BigInteger::greatest_common_divisor(limbs, limbsB); else R = BigInteger::greatest_common_divisor(o.A, o.B); }
        else if (pick("queries")) { R = o.A; flag = o.A.get_bit_length() == bitCount(a >= 0 ? mpz_class(a) : mpz_class(-a - 1)) && o.A.get_byte_count() == static_cast<int>(wantBytes.size()) && o.A.is_even() == (mpz_even_p(a.get_mpz_t()) != 0) && o.A.is_power_of_two() == (a > 0 && mpz_popcount(a.get_mpz_t()) == 1) && o.A.sign() == sgn(a); }
        else if (pick("log")) { R = o.A; double l = BigInteger::log(o.A), l10 = BigInteger::log10(o.A); flag = (a > 1) == (l > 0) && (a > 1) == (l10 > 0); }
        else if (pick("double")) { R = o.A; double f = o.A.operator double(); flag = (f < 0) == (a < 0) && (f == 0) == (a == 0); }
        else if (pick("hash")) { R = o.A; flag = o.A.get_hash_code() == BigInteger(bytes).get_hash_code(); }
        else if (pick("compare")) { R = o.A; int g = o.A.compare_to(o.B); flag = (g > 0) - (g < 0) == order && (o.A < o.B) == (order < 0) && (o.A == o.B) == (order == 0) && o.A.equals(o.A); }
        else if (pick("BigInteger(bytes, unsigned BE)")) R = BigInteger(magnitude, true, true);
        else if (pick("A-(-B)")) R = o.A - (-o.B);
        else if (pick("pow(A,-1)")) { try { R = BigInteger::pow(o.A, -1); flag = false; } catch (const std::out_of_range&) { R = o.A; } }
        else if (pick("swap")) { R = o.A; std::swap(o.T, R); }
        else if (pick("mixed native")) { BigInteger x = o.A; x += n; x *= n; x -= k; R = x; }
        else if (pick("A/0")) { BigInteger z; R = o.A / z; }
    };
    unsigned failures = 0;
    long total = -1;
#ifdef COLD
    const bool cold = true; // nothing ran before in this process: the failure hits whatever is set up on the first use
    long coldKth = static_cast<long>(s.flag() ? s.below(6) : s.below(48));
#else
    const bool cold = false;
    long coldKth = 0;
#endif
    for (long j = cold ? 0 : -2;; j++) { // -2: warm up, -1: count, then fail allocation j
        if (cold && j > 0) break;
        long kth = cold ? coldKth : j;
        if (j > 24 && !cold) { if (total <= j) break; kth = 25 + static_cast<long>(s.below(total - 25)); if (j > 32) break; }
        if (total >= 0 && kth >= total) break;
        long before = liveBlocks;
        std::string why;
        {
            Objs o{make(a), make(b), make(e), make(t)};
          for (int again = 0; again < 2; again++) { // after a failure: the same operation on the same objects
            if (again) { if (!fired || j < 0 || !why.empty()) break; o.T = make(t); o.A = make(a); o.B = make(b); }
            bool threw = false, flag = true, divZero = false;
            mpz_class got;
            bool hasValue = true, textOk = true;
            BigInteger R2;
            {
                BigInteger R;
                std::string S; byte_array Y; uint_array U;
                allocs = 0; fired = false; countdown = j < 0 || again ? -1 : kth; armed = true;
                try { run(o, R, S, Y, U, flag); }
                catch (const std::bad_alloc&) { threw = true; }
                catch (const DivideByZero&) { divZero = true; }
                catch (...) { armed = false; c.fail(name + ": an exception that is neither bad_alloc nor the documented one"); }
                armed = false; countdown = -1;
                if (j == -1) total = allocs;
                if (again) fired = false;
                if (pick("to_string")) { hasValue = false; textOk = S == text; }
                else if (pick("to_byte_array")) { hasValue = false; textOk = Y == wantBytes; }
                else if (pick("to_byte_array(BE)")) { hasValue = false; textOk = Y == twosBytes(a, true); }
                else if (pick("to_uint32_array")) { hasValue = false; mpz_class z = zFromLimbs(U); if (!U.empty() && (U.back() >> 31)) z -= pow2(32 * U.size()); textOk = z == a; }
                if (pick("B=div_rem(T,B,T)")) R2 = R;
                got = val(op.inPlace && !pick("div_rem(A,B,T)") ? o.T : R); // "swap": T holds what A is
            }
            if (fired) failures++;
            if (threw && !fired) why = "bad_alloc although no allocation failed";
            else if (pick("A/0")) { if (!divZero && !(threw && fired)) why = "A/0 did not throw"; }
            else if (divZero) why = "DivideByZero with a non-zero divisor";
            else if (!threw && !(pick("try_parse") && fired && !flag)) { // completed: the value must be right
                if (!flag) why = pick("try_parse") ? "try_parse rejected digits" : "wrong answer";
                else if (!hasValue ? !textOk : got != want) why = "returned normally with " + (hasValue ? showZ(got) : std::string("another text")) + " instead of " + showZ(want);
                else if (pick("div_rem(A,B,T)") && val(o.T) != want2) why = "remainder is " + showZ(val(o.T));
                else if (pick("B=div_rem(T,B,T)") && val(R2) != want2) why = "quotient is " + showZ(val(R2));
            }
            if (why.empty()) {
                if (val(o.A) != a || !wellFormed(o.A)) why = "the operand A changed to " + showZ(val(o.A));
                else if (val(o.B) != b || !wellFormed(o.B)) why = "the operand B changed to " + showZ(val(o.B));
                else if (val(o.E) != e) why = "the operand E changed";
                else if (!op.inPlace && val(o.T) != t) why = "an uninvolved object changed";
                else if (!wellFormed(o.T)) why = "the target is not a valid integer any more";
                else { // everything stays usable
                    o.T = o.A; o.T += o.B;
                    if (val(o.T) != a + b) why = "objects are unusable after the failure";
                }
            }
            if (again && !why.empty()) why = "repeated after the failure: " + why;
            if (again) fired = true;
          }
        }
        if (why.empty() && !cold && j >= -1 && liveBlocks != before) why = std::to_string(liveBlocks - before) + " block(s) leaked";
        if (!why.empty()) c.fail(name + (j >= 0 ? ", allocation " + std::to_string(kth) + " failing: " : ": ") + why);
    }
    c.label(failures == 0 ? "no allocation to fail" : failures == 1 ? "1 failure point" : failures < 6 ? "2-5 failure points" : "6+ failure points");
    c.nontrivial = failures >= (cold ? 1u : 2u);
}
