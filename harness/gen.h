#pragma once
#include "engine.h"
#include <clocale>
#include <locale>
#include "bigintegercpp/BigInteger.h"

// ---- model <-> library
mpz_class zFromLimbs(const uint_array& v);
uint_array limbsOf(const mpz_class& v);                 // magnitude, minimal
mpz_class val(const BigInteger& x);                     // integer denoted by the object
byte_array twosBytes(const mpz_class& v, bool bigEndian = false); // minimal two's complement (>= 1 byte)
byte_array magBytes(const mpz_class& v, bool bigEndian = false);  // minimal unsigned (>= 1 byte)
BigInteger make(const mpz_class& v);                    // via little-endian two's complement bytes
BigInteger makeVia(const mpz_class& v, unsigned route); // one of ROUTES ways
constexpr unsigned ROUTES = 14;
BigInteger makeAny(Ctx& c, const mpz_class& v);         // mostly route 0, sometimes another
// state of the program that results must not depend on: global locale, rounding mode; each changed one time in n
struct Ambient { bool locale = false; int rounding = -1; std::locale before; std::string cLocale = setlocale(LC_ALL, nullptr); Ambient(Ctx& c, unsigned n); ~Ambient(); };
inline size_t limbCount(const mpz_class& v) { return v == 0 ? 0 : (mpz_sizeinbase(v.get_mpz_t(), 2) + 31) / 32; }
inline size_t bitCount(const mpz_class& v) { return v == 0 ? 0 : mpz_sizeinbase(v.get_mpz_t(), 2); }
inline bool isBig(const mpz_class& v) { return abs(v) >= mpz_class("2147483648"); }
mpz_class pow2(unsigned long k);

// ---- generators
mpz_class genMag(Source& s, size_t maxLimbs);
mpz_class genInt(Source& s, size_t maxLimbs);
mpz_class genSized(Source& s, size_t limbs);            // exactly `limbs` limbs
mpz_class genLarge(Source& s, size_t lo, size_t hi);    // lo..hi limbs, log-uniform, signed; few choices
mpz_class genIntL(Source& s, size_t usual, size_t hi, unsigned n = 400); // genInt, one time in n genLarge up to hi limbs, one time in 60n genHuge
mpz_class genHuge(Source& s);                           // 1000..70000 limbs, often next to 2^14..2^16 limbs; few choices
#ifdef GIANT // only where nothing slows the library down
// about 2^31 bits (256 MB), next to where a number of bits stops fitting an int; made with shifts
struct Giant { mpz_class v; BigInteger V; };
Giant genGiant(Ctx& c);
inline bool wantGiant(Source& s, unsigned n) { return s.oneIn(1000) && s.oneIn(n); } // one case in 1000n
#endif
mpz_class genRelated(Source& s, const mpz_class& a, size_t maxLimbs);
mpz_class genNative(Source& s);                         // around the limits of the native types
mpz_class genCorner(Source& s);                         // the limits themselves, and next to them
inline bool corners(Source& s, mpz_class& a, mpz_class& b) { // both at once: what code that takes a native short cut has to survive
    if (!s.oneIn(10)) return false;
    a = genCorner(s); b = genCorner(s);
    return true;
}
double genDouble(Source& s);
uint32_t genLimb(Source& s);

// ---- checks
void expectValue(Ctx& c, const char* what, const BigInteger& got, const mpz_class& want);
void sizeLabels(Ctx& c, const char* who, const mpz_class& v);
std::string exName(const std::exception& e);
