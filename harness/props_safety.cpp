// C19: whatever the arguments, every call returns or throws; no undefined behaviour, no invalid memory access, no
// abort, no endless loop.  The sanitizers and the per-case time limit are the oracle; wrong values are the
// business of the other properties, so their failures are ignored here.
#include "gen.h"
#include <cmath>

static void rawApi(Ctx& c) {
    Source& s = c.s;
    auto guarded = [&](auto f) { try { f(); } catch (const std::exception&) { c.label("threw"); } };
    switch (s.below(6)) {
        case 0: { // text of any kind
            std::string t;
            unsigned style = s.below(3);
            for (size_t n = s.below(s.oneIn(20) ? 3000 : 60); n--;) { static const char cs[] = "0123456789+- \t\n.,eExXabcABC_\0"; unsigned b = s.u8(); t += style == 0 ? static_cast<char>(b) : style == 1 ? cs[b % sizeof cs] : static_cast<char>('0' + b % 10); }
            c.op("parse any text"); c.inText("t", t);
            guarded([&] { BigInteger::parse(t).to_string(); });
            BigInteger r(1);
            guarded([&] { BigInteger::try_parse(t, r); });
            guarded([&] { r.to_string(); r.to_byte_array(); });
            c.nontrivial = t.size() > 9;
            break;
        }
        case 1: { // bytes of any kind
            byte_array b;
            for (size_t n = s.below(s.oneIn(20) ? 600 : 40); n--;) { unsigned x = s.u8(); b.push_back(x < 100 ? (x & 1 ? 0xff : 0) : x < 120 ? 0x80 : s.u8()); }
            bool u = s.flag(), be = s.flag();
            c.op("any bytes"); c.inBytes("b", b); c.in("u", u); c.in("be", be);
            guarded([&] {
                BigInteger x(b, u, be);
                x.to_byte_array(false, be); x.to_string(); x.to_uint32_array(); x.get_hash_code(); x.get_bit_length(); x.get_byte_count(); x.is_power_of_two(); x.sign();
                guarded([&] { x.to_byte_array(true, be); });
                guarded([&] { (void)x.operator int(); }); guarded([&] { (void)x.operator long(); });
                guarded([&] { (void)x.operator unsigned int(); }); guarded([&] { (void)x.operator unsigned long(); });
                (void)x.operator double(); (void)x.operator float(); BigInteger::log(x); BigInteger::log10(x);
            });
            c.nontrivial = b.size() > 4;
            break;
        }
        case 2: { // limbs of any kind
            uint_array l;
            for (size_t n = s.below(12); n--;) l.push_back(genLimb(s));
            bool neg = s.flag();
            c.op("any limbs"); for (auto x : l) c.in("limb", static_cast<int64_t>(x)); c.in("neg", neg);
            guarded([&] { BigInteger x(l, neg); x.to_string(); x.to_byte_array(); BigInteger y = ~x; y += x; y *= x; });
            c.nontrivial = l.size() > 1;
            break;
        }
        case 3: { // any bit pattern of a double
            uint64_t u = s.u64(); double d; memcpy(&d, &u, 8);
            c.op("any double"); c.inD("d", d);
            guarded([&] { BigInteger x(d); (void)x.operator double(); BigInteger::log(x, d); x.to_string(); });
            c.nontrivial = std::isfinite(d) && std::fabs(d) > 1e10;
            break;
        }
        case 4: { // pairwise operations including every domain error
            mpz_class a = genInt(s, 70), b = s.oneIn(8) ? mpz_class(0) : genRelated(s, a, 70), e = s.oneIn(3) ? genInt(s, 3) : mpz_class(s.below(40));
            corners(s, a, b);
            c.op("any operands"); c.in("a", a); c.in("b", b); c.in("e", e);
            BigInteger A = makeAny(c, a), B = makeAny(c, b), E = makeAny(c, e), R;
            guarded([&] { A / B; }); guarded([&] { A % B; }); guarded([&] { BigInteger::div_rem(A, B, R); });
            guarded([&] { BigInteger::mod_pow(A, E, B); }); guarded([&] { BigInteger::greatest_common_divisor(A, B); });
            guarded([&] { BigInteger x = A; x &= B; x |= A; x ^= B; x -= A; x *= B; x += x; x /= x; });
            c.nontrivial = isBig(a) && isBig(b);
            break;
        }
        default: { // shifts by any moderately sized amount, from any state
            mpz_class a = genInt(s, 20);
            int k = static_cast<int>(s.range(-3000, 3000));
            c.op("any shift"); c.in("a", a); c.in("k", k);
            BigInteger A = makeAny(c, a);
            guarded([&] { BigInteger x = A << k, y = A >> k; x ^= y; x.to_byte_array(); (A << 0x7fffffff - 0x7fffffff) >> 0x7fffffff; });
            c.nontrivial = k != 0 && isBig(a);
        }
    }
}

PROPERTY(C19, "any generated case of C01-C18, or raw calls with arbitrary text, bytes, limbs, doubles, operands and shift amounts, under AddressSanitizer and UndefinedBehaviorSanitizer with a CPU-time limit; non-trivial by the rule of the underlying case (or, for raw calls, when multi-limb data is involved)") {
    static std::vector<const Prop*> subs;
    if (subs.empty()) for (auto& p : allProps()) if (std::string(p.id) < "C19") subs.push_back(&p);
    unsigned k = c.s.below(subs.size() + 4);
    if (k >= subs.size()) { rawApi(c); return; }
    c.label(std::string("case of ") + subs[k]->id);
    if (c.describe) c.desc += std::string("[") + subs[k]->id + "]";
    try { subs[k]->fn(c); } catch (const Fail&) { c.label("other property failed"); } catch (const std::exception&) { c.label("threw"); }
}
