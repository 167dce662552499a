// C28: the work and the memory of one call, against a bound that depends on lengths only.  The library is built with a
// counter in every basic block; operator new is replaced and counts bytes.  Both numbers are the same on every run.
#include "gen.h"
#include <climits>
#include <cmath>
#include <cstdlib>
#include <malloc.h>
#include <new>

static uint64_t blocks, bytesTotal;
static int64_t bytesLive, bytesPeak;
static char* lowest; // how far down the stack went
extern "C" void __sanitizer_cov_trace_pc() {
    blocks++;
    char* f = static_cast<char*>(__builtin_frame_address(0));
    if (f < lowest) lowest = f;
}
static void* grab(size_t n) {
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    size_t u = malloc_usable_size(p);
    bytesTotal += u;
    bytesLive += static_cast<int64_t>(u);
    if (bytesLive > bytesPeak) bytesPeak = bytesLive;
    return p;
}
static void drop(void* p) { if (p) { bytesLive -= static_cast<int64_t>(malloc_usable_size(p)); free(p); } }
void* operator new(size_t n) { return grab(n); }
void* operator new[](size_t n) { return grab(n); }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }

namespace {
// work(): what the schoolbook methods need, in units of one inner step; long products of equal lengths must need less
double mulWork(double n, double m) {
    if (n < m) std::swap(n, m);
    if (m < 32) return n * m;
    double h = std::floor(m / 2); // the shorter factor is halved: three products of half the length when both are equally long
    return mulWork(h, h) + mulWork(n - h, m - h) + mulWork(n - h + 1, m - h + 1) + 4 * (n + m);
}
struct Op { const char* name; int kind; double work, mem; }; // bounds: work and memory per unit of the model
enum { LIN, MUL, SQU, DIV, GCD, TXT, PARSE, POW, MODPOW, SHIFT };
const Op ops[] = {
    {"A+B", LIN, 12, 12}, {"A-B", LIN, 12, 12}, {"A*B", MUL, 4, 95}, {"A*A", SQU, 2.75, 28}, {"A/B", DIV, 35, 24}, {"A%B", DIV, 37, 18}, {"div_rem", DIV, 41, 29},
    {"gcd", GCD, 61, 43}, {"to_string", TXT, 4.5, 30}, {"parse", PARSE, 50, 21}, {"pow", POW, 20, 75}, {"mod_pow", MODPOW, 44, 41}, {"<<", SHIFT, 24, 36}, {">>", SHIFT, 23, 30},
    {"A&B", LIN, 23, 24}, {"A|B", LIN, 24, 24}, {"A^B", LIN, 21, 24}, {"~A", LIN, 5, 12}, {"-A", LIN, 3, 12}, {"++A", LIN, 3, 12}, {"--A", LIN, 3.5, 12},
    {"compare", LIN, 7, 12}, {"hash", LIN, 3, 12}, {"copy", LIN, 3, 12}, {"to_byte_array", LIN, 11, 12}, {"bytes", LIN, 41, 23}, {"limbs", LIN, 17, 12},
    {"queries", LIN, 4, 12}, {"double", LIN, 3, 12}, {"log", LIN, 3, 12}, {"+=", LIN, 11, 12}, {"*=", MUL, 4, 95}, {"/=", DIV, 36, 17}, {"%=", DIV, 36, 12},
    {"<<=", SHIFT, 23, 30}, {">>=", SHIFT, 22, 24}, {"&=", LIN, 23, 24}, {"-=", LIN, 12, 12}, {"move", LIN, 3, 12}, {"native", LIN, 3.5, 12}, {"to_uint32_array", LIN, 4, 12},
};

size_t length(Source& s, size_t cap) { // log-uniform
    size_t hi = cap;
    unsigned steps = 1 + s.below(12);
    while (--steps && hi > 2) hi = hi * 10 / 17;
    return 1 + s.below(hi);
}
mpz_class shaped(Source& s, size_t n) {
    mpz_class v;
    switch (s.weighted({6, 2, 2, 2, 1, 1})) {
    case 0: v = genSized(s, n); break;
    case 1: v = pow2(32 * n) - 1; break;
    case 2: v = pow2(32 * n - 1); break;
    case 3: v = pow2(32 * n) - genMag(s, 2) - 1; break;
    case 4: mpz_fib_ui(v.get_mpz_t(), static_cast<unsigned long>(32 * n / 0.6942419)); break;
    default: v = pow2(32 * (n - 1)) + genMag(s, 1);
    }
    return s.flag() ? mpz_class(-v) : v;
}
double clamp1(double x) { return x < 1 ? 1 : x; }
}

PROPERTY(C28, "one operation on operands of chosen lengths and shapes (all ones, powers of two, Fibonacci numbers, extreme shifts and exponents); the basic blocks executed and the bytes allocated, and the peak of the bytes held, are compared with a bound computed from the lengths; non-trivial when the bound lets the operation take more than 2000 steps or the shift, exponent or base is extreme") {
    Source& s = c.s;
    const Op& op = ops[s.below(sizeof ops / sizeof *ops)];
    std::string name = op.name;
    auto pick = [&](const char* x) { return name == x; };
    size_t cap = op.kind == LIN || op.kind == SHIFT ? 4000 : op.kind == MUL || op.kind == SQU ? 2500 : op.kind == MODPOW ? 40 : op.kind == POW ? 60 : 300;
    if (s.oneIn(60)) cap *= op.kind == MODPOW ? 2 : 4;
    size_t na = length(s, cap), nb = s.flag() ? na : length(s, cap);
    bool longest = (op.kind == MUL || op.kind == SQU) && s.oneIn(150); // where the growth shows best
    bool lengthy = op.kind != LIN && op.kind != SHIFT && op.kind != MUL && op.kind != SQU && s.oneIn(300); // for buffers on the stack
    if (longest) { na = 20000 + s.below(20000); nb = s.flag() ? na - s.below(3) : na * (100 + s.below(900)) / 1000; }
    if (lengthy) { na = (op.kind == PARSE || op.kind == MODPOW ? 1200 : 4000) + s.below(800); nb = op.kind == DIV && s.flag() ? na - s.below(20) : op.kind == MODPOW ? na : 1 + s.below(20); }
    mpz_class a, b;
    if (longest || lengthy) { a = genSized(s, na); b = genSized(s, nb); }
    else if (s.oneIn(8)) { a = genNative(s); b = s.flag() ? genNative(s) : shaped(s, nb); if (s.flag()) std::swap(a, b); }
    else { a = shaped(s, na); b = shaped(s, nb); }
    if (op.kind == GCD && !lengthy && s.oneIn(4)) { // neighbours in the Fibonacci sequence, times a common factor: the longest Euclid there is
        mpz_class f = genMag(s, 2) + 1;
        mpz_fib2_ui(a.get_mpz_t(), b.get_mpz_t(), static_cast<unsigned long>(32 * na / 0.6942419));
        a *= f; b *= f;
    }
    if (b == 0) b = 7;
    bool extreme = false;
    int k = 0, pe = 0;
    mpz_class e;
    if (op.kind == SHIFT) {
        bool left = name[0] == '<';
        switch (s.weighted({3, 2, 2})) {
        case 0: k = static_cast<int>(s.below(70)); break;
        case 1: k = static_cast<int>(s.below(40000)); break;
        default: { // towards nothing, or of zero
            extreme = true;
            static const int far[] = {INT_MAX, INT_MAX - 1, INT_MAX - 31, INT_MAX - 32, 1 << 30, 1 << 24, INT_MIN, INT_MIN + 1, -(1 << 30)};
            k = s.pick(far);
            if (left == (k > 0)) a = 0;
        }
        }
        if (!extreme && s.flag()) k = -k;
    }
    if (op.kind == POW) {
        if (s.oneIn(3)) { extreme = true; a = static_cast<int>(s.below(3)) - 1; pe = static_cast<int>(s.flag() ? INT_MAX - s.below(70) : s.below(INT_MAX)); }
        else if (lengthy) pe = 2; else { size_t room = 600 / (limbCount(a) ? limbCount(a) : 1); pe = static_cast<int>(s.below(room + 2)); if (bitCount(a) < 8) pe = static_cast<int>(s.below(4000)); }
    }
    if (op.kind == MODPOW) { e = lengthy ? mpz_class(2 + s.below(3)) : s.oneIn(4) ? genMag(s, 40) : genMag(s, 4); extreme = e > 0xffff; }
    c.op(op.name); c.in("a", a); c.in("b", b); c.in("k", k); c.in("pe", pe); c.in("e", e);

    std::string text = a.get_str(), S;
    if (op.kind == PARSE && s.oneIn(4)) text = std::string(s.below(3000), '0') + text;
    byte_array bytes = twosBytes(a), Y;
    if (pick("bytes") && s.oneIn(3)) bytes.resize(bytes.size() + s.below(9000), a < 0 ? 255 : 0);
    uint_array limbs = limbsOf(abs(a)), U;
    if (pick("limbs") && s.oneIn(3)) limbs.resize(limbs.size() + s.below(3000), 0);
    BigInteger A = make(a), B = make(b), E = make(e), R, R2;
    double x = limbCount(a), y = limbCount(b), lin = 0;
    double z = 0; // limbs of the result
    double d = 0; uint64_t q = 0;
    double work = 0; // the model
    switch (op.kind) {
    case LIN: lin = x + y + bytes.size() / 4.0 + limbs.size(); break;
    case MUL: work = mulWork(x, y) + 3 * (x + y); z = x + y; break;
    case SQU: work = mulWork(x, x); z = 2 * x; break;
    case DIV: work = x >= y ? (x - y + 1) * y : 1; z = x; break;
    case GCD: work = x * y; z = std::min(x, y); break;
    case TXT: case PARSE: work = text.size() * (text.size() / 9.6 * (op.kind == PARSE ? 1 : 0.11) + 4.0); z = text.size() / 8.0; break;
    case POW: { z = bitCount(a) < 2 ? 1 : x * pe; if (abs(a) > 1) z = (static_cast<double>(bitCount(a)) * pe) / 32 + 1; work = 3 * mulWork(z, z) + 64; break; }
    case MODPOW: work = (x >= y ? (x - y + 1) * y : 1) + (bitCount(e) + 2) * (y * y * 2 + 20); z = 2 * y + limbCount(e); lin = 0; break;
    case SHIFT: lin = a == 0 ? 1 : (name[0] == '<') == (k > 0) ? x + std::fabs(static_cast<double>(k)) / 32 : x; break;
    }
    work += lin + x + y + z;
    double mem = lin + x + y + (op.kind == POW && abs(a) > 1 ? x * pe : z); // a power is given room for whole limbs

    bytesTotal = 0; blocks = 0; bytesLive = 0; bytesPeak = 0;
    char* base = static_cast<char*>(__builtin_frame_address(0));
    lowest = base;
    try {
        if (pick("A+B")) R = A + B; else if (pick("A-B")) R = A - B; else if (pick("A*B")) R = A * B; else if (pick("A*A")) R = A * A;
        else if (pick("A/B")) R = A / B; else if (pick("A%B")) R = A % B; else if (pick("div_rem")) R = BigInteger::div_rem(A, B, R2);
        else if (pick("gcd")) R = BigInteger::greatest_common_divisor(A, B); else if (pick("to_string")) S = A.to_string(); else if (pick("parse")) R = BigInteger::parse(text);
        else if (pick("pow")) R = BigInteger::pow(A, pe); else if (pick("mod_pow")) R = BigInteger::mod_pow(A, E, B);
        else if (pick("<<")) R = A << k; else if (pick(">>")) R = A >> k; else if (pick("A&B")) R = A & B; else if (pick("A|B")) R = A | B; else if (pick("A^B")) R = A ^ B;
        else if (pick("~A")) R = ~A; else if (pick("-A")) R = -A; else if (pick("++A")) ++A; else if (pick("--A")) --A;
        else if (pick("compare")) q = (A < B) + (A == B) * 2 + (A > B) * 4 + (A <= B) * 8 + A.compare_to(A) * 16;
        else if (pick("hash")) q = static_cast<uint64_t>(A.get_hash_code()); else if (pick("copy")) { BigInteger t(A); R = t; }
        else if (pick("to_byte_array")) { Y = A.to_byte_array(); Y = A.to_byte_array(false, true); } else if (pick("bytes")) { R = BigInteger(bytes); } else if (pick("limbs")) R = BigInteger(limbs, a < 0);
        else if (pick("queries")) q = A.is_zero() + A.is_one() + A.is_even() + A.is_power_of_two() + A.sign() + A.get_bit_length() + A.get_byte_count();
        else if (pick("double")) d = static_cast<double>(A); else if (pick("log")) d = BigInteger::log(A) + BigInteger::log10(A);
        else if (pick("+=")) A += B; else if (pick("*=")) A *= B; else if (pick("/=")) A /= B; else if (pick("%=")) A %= B; else if (pick("<<=")) A <<= k; else if (pick(">>=")) A >>= k;
        else if (pick("&=")) A &= B; else if (pick("-=")) A -= B; else if (pick("move")) { R = std::move(A); A = std::move(R); std::swap(A, B); }
        else if (pick("native")) { R = A + BigInteger(5); try { q = static_cast<uint64_t>(static_cast<long>(A)); } catch (const std::exception&) {} }
        else if (pick("to_uint32_array")) U = A.to_uint32_array();
    } catch (const std::bad_alloc&) {
        throw;
    } catch (const std::exception& x) {
        c.label("refused: " + exName(x));
    }
    (void)q; (void)d;
    double w = static_cast<double>(blocks) + bytesTotal / 16.0, m = static_cast<double>(bytesPeak);
    long stack = base - lowest;
    c.out(std::to_string(blocks));
    c.nontrivial = extreme || work > 2000;
    if (getenv("COST")) {
        printf("%s %.0f %.0f %.0f %.0f %.0f %.0f %.4f %.4f %ld\n", op.name, x, y, work, w, mem, m, w / (work + 100), m / (mem + 100), stack);
        return;
    }
    double bw = op.work * (work + 100), bm = op.mem * (mem + 100);
    REQUIRE(c, w <= bw, name + " took " + std::to_string(static_cast<long>(w)) + " steps where " + std::to_string(static_cast<long>(bw)) + " are ample for these lengths");
    REQUIRE(c, m <= bm, name + " held " + std::to_string(static_cast<long>(m)) + " bytes where " + std::to_string(static_cast<long>(bm)) + " are ample for these lengths");
    long room = (op.kind == MUL || op.kind == SQU || op.kind == POW ? 64 : 10) * 1024; // halving recurses
    REQUIRE(c, stack <= room, name + " took " + std::to_string(stack) + " bytes of stack where " + std::to_string(room) + " are ample for any length");
}
