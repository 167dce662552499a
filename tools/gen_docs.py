#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that the two stay in step."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BI, BH = "src/BigInteger.cpp", "include/public/bigintegercpp/BigInteger.h"
CALC = "src/BigIntegerCalculator/"
PYB = "bindings/python/python-bindings.cpp"
P = []


def p(id, title, statement, over, text, why, files, mech, technique, note):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), technique, note))


RND = "structured random generation (choice sequences, shrinking) against a GMP oracle, two builds (ASan+asserts, -O2 -DNDEBUG); libFuzzer on the same choices in the thorough tier"
DIFF = "the tests try fixed samples and random values compared with a test-only reference written in the same style; carries, limb patterns and size thresholds outside those samples are never reached"

p("C01", "Addition, subtraction, negation and step operators are exact",
  "For all integers a and b, every way of adding, subtracting, negating, taking the absolute value, incrementing and decrementing yields exactly the mathematical result, whatever the sizes and signs and also when an operand is its own target. Operands that are not the target keep their value. Postfix increment and decrement return the old value, prefix the new one.",
  ["inputs"], "every pair of integers of any size and sign, every entry point and aliasing of operands and target",
  DIFF + "; aliased targets and the limits of the inline representation are sampled a handful of times",
  [BI, CALC + "AddSub.cpp"], [("operator+=, operator-=, ++, --", BI), ("limb add/subtract with carry", CALC + "AddSub.cpp")],
  "property-based testing, GMP differential", RND)
p("C02", "Multiplication is exact for every size and sign",
  "The product of any two integers is the exact mathematical product with the exact sign, whatever their relative sizes, and so is the square of a value multiplied by itself. It is commutative and distributes over addition.",
  ["inputs"], "every pair of integers, including sizes on both sides of every algorithm switch and strongly unbalanced operands",
  DIFF + "; the switches at 32 and 256 limbs and unbalanced operands need specific sizes",
  [BI, CALC + "SquMul.cpp"], [("operator*=", BI), ("schoolbook and Karatsuba square/multiply", CALC + "SquMul.cpp")],
  "property-based testing, GMP differential and algebraic identities", RND)
p("C03", "Division truncates toward zero with a remainder of the dividend's sign",
  "For every dividend and every non-zero divisor the quotient is the exact quotient truncated toward zero, the remainder has the sign of the dividend and a smaller magnitude than the divisor, and quotient times divisor plus remainder is the dividend. All forms of division agree, also when the remainder, target and operands are the same object.",
  ["inputs"], "every dividend and non-zero divisor; every aliasing of operands, target and remainder",
  DIFF + "; the correction steps of long division occur for about one in 2^32 uniformly random operands",
  [BI, CALC + "DivRem.cpp"], [("operator/=, operator%=, div_rem", BI), ("long division with guess correction", CALC + "DivRem.cpp")],
  "property-based testing, GMP differential, inputs built backwards from quotient and remainder", RND)
p("C04", "Powers are exact",
  "Raising any integer to any non-negative exponent yields the exact power, with exponent 0 giving 1 also for base 0. Powers of one base multiply by adding their exponents.",
  ["inputs"], "every base and every non-negative exponent whose result is of reasonable size", DIFF + "; result sizes are estimated by a separate bound computation that only some bases stress",
  [BI, CALC + "PowMod.cpp"], [("pow and the size bound", CALC + "PowMod.cpp"), ("trivial bases and exponents", BI)],
  "property-based testing, GMP differential", RND)
p("C05", "Modular powers are exact and take the sign of the base power",
  "For every base, non-negative exponent and non-zero modulus, the modular power equals the remainder, truncated toward zero, of the full power divided by the modulus. The sign and size of modulus and base never change that.",
  ["inputs"], "every base, every non-negative exponent of any size, every non-zero modulus of any size and sign", DIFF + "; moduli of 32 limbs and more, negative bases with small moduli and multi-limb exponents are hardly sampled",
  [BI, CALC + "PowMod.cpp", CALC + "FastReducer.cpp", CALC + "BitsBuffer.cpp"], [("square-and-multiply cores", CALC + "PowMod.cpp"), ("Barrett reduction", CALC + "FastReducer.cpp"), ("working buffers", CALC + "BitsBuffer.cpp"), ("sign of the result", BI)],
  "property-based testing, GMP differential", RND)
p("C06", "The greatest common divisor is exact",
  "For every pair of integers the greatest common divisor is the non-negative greatest integer dividing both, 0 only for two zeros, independent of order and signs, and the call returns.",
  ["inputs"], "every pair of integers, in particular pairs whose Euclidean quotient sequence has long runs of small or single huge quotients", DIFF + "; the multi-limb reduction takes different paths depending on the quotient sequence",
  [BI, CALC + "GcdInv.cpp"], [("Lehmer reduction", CALC + "GcdInv.cpp"), ("case split on sizes", BI)],
  "property-based testing, GMP differential, operands built from continued fractions", RND)
p("C07", "Shifts are exact two's complement shifts",
  "Shifting left by k multiplies by 2 to the k exactly and shifting right by k divides by 2 to the k rounding toward negative infinity, for every value and sign; a negative amount shifts the other way. Right shifts by any number of bits beyond the size give 0 or -1.",
  ["inputs"], "every value and every shift amount whose result fits in memory", DIFF + "; negative values whose low limbs are zero at limb-multiple shifts are special",
  [BI], [("operator<<=, operator>>=", BI)], "property-based testing, GMP differential", RND)
p("C08", "Bitwise operations act on the infinite two's complement form",
  "And, or, exclusive or and complement of any integers equal the bitwise operation on their infinitely sign-extended two's complement forms, and obey the Boolean identities. Compound forms and aliased operands give the same result.",
  ["inputs"], "every pair of integers of any size and sign", DIFF + "; sign-extension limbs and high-bit patterns at limb boundaries are special",
  [BI], [("operator&=, |=, ^=, ~ and limb export", BI)], "property-based testing, GMP differential and Boolean identities", RND)
p("C09", "Byte arrays convert exactly in both directions and orders",
  "Reading any byte array as signed or unsigned, little or big endian, gives the integer those bytes denote, whatever padding they carry. Exporting gives the shortest such array, of the announced length, and reading it back gives the same integer.",
  ["inputs"], "every byte array of any length and every integer, all four formats", DIFF + "; redundant sign bytes, partial last limbs and minimal negative powers of two are single points",
  [BI], [("byte constructor", BI), ("to_byte_array, get_byte_count", BI)], "property-based testing, round trip and independent encoder/decoder", RND)
p("C10", "Decimal text and integers convert exactly in both directions",
  "Formatting any integer gives its canonical decimal digits with a leading minus sign for negative values only, and parsing it gives the integer back. Parsing any text gives exactly the value of its leading numeral - an optional sign and the decimal digits after it, any number of leading zeros allowed, up to the first other character - and zero when there is none.",
  ["inputs"], "every integer and every text", DIFF + "; buffer sizing depends on digit counts and values at powers of the internal base",
  [BI], [("to_string", BI), ("parse, try_parse", BI)], "property-based testing, round trip and GMP differential", RND)
p("C11", "Ordering, equality and hashing agree with the numeric value",
  "Every comparison of two values agrees with the comparison of the integers they represent, forming one total order. Equal values have equal hashes no matter how each was computed.",
  ["inputs", "histories"], "every pair and triple of values, each reached by any route of computation", DIFF + "; values reached by different computations are not compared",
  [BI, BH], [("compare_to, equals", BI), ("hash", BI), ("relational operators", BH)], "property-based testing, GMP differential and order axioms", RND)
p("C12", "Native integers convert exactly, and out-of-range conversions are refused",
  "Constructing from any 32- or 64-bit signed or unsigned integer gives that value, and converting back gives it again. Converting a value that does not fit the target type throws instead of giving a wrong number, and mixed operations with native integers are exact.",
  ["inputs"], "every native integer and every value around every limit of those types", DIFF + "; the limits of each of the four types form many corner points",
  [BI, BH], [("constructors and conversion operators", BI)], "property-based testing, GMP differential", RND)
p("C13", "Floating-point conversions truncate exactly",
  "Constructing from any finite floating-point number gives its integer part exactly. Converting any value to double gives it truncated toward zero to 53 significant bits, with infinity from 2 to the 1024 on, whatever the rounding mode, and converting to single precision is that double narrowed. A double with an integral value survives the round trip.",
  ["inputs"], "every finite double and every integer", DIFF + "; the bit alignment differs for each exponent and limb count",
  [BI, "include/NumericsHelpers.h"], [("double constructor and conversions", BI), ("mantissa assembly", "include/NumericsHelpers.h")],
  "property-based testing, GMP differential", RND)
p("C14", "Logarithms are accurate for every magnitude",
  "Natural, decimal and arbitrary-base logarithms of any positive value agree with the true logarithm to within floating-point accuracy, also far beyond the range of double. Zero, negative values and degenerate bases give the values the platform's logarithm defines.",
  ["inputs"], "every value and every base", DIFF + "; each bit length has its own scaling",
  [BI], [("log, log10", BI)], "property-based testing, long-double reference", RND + "; tolerance 1e-13 relative")
p("C15", "Queries describe the value exactly",
  "For every integer the tests for zero, one, even and power of two, the sign, the bit length and the byte count are those of the value. They never change the value.",
  ["inputs"], "every integer", DIFF + "; powers of two and their neighbours at every bit length are single points",
  [BI], [("is_*, sign, get_bit_length, get_byte_count", BI)], "property-based testing, GMP differential", RND)
p("C16", "Limb-level construction and export are exact",
  "Building a value from any sequence of 32-bit limbs with a sign gives the denoted integer, also with leading zero limbs, and exporting limbs in two's complement form denotes the value. Limb-level sums, differences and divisors agree with the value-level ones.",
  ["inputs"], "every limb sequence and sign", DIFF + "; non-canonical limb sequences are not sampled",
  [BI], [("limb constructors, to_uint32_array, get_bits", BI)], "property-based testing, GMP differential", RND)
p("C17", "Values stay independent and correct over any history of operations",
  "After any sequence of operations on any objects, including in-place operations on aliased operands, copies, moves, swaps and calls that threw, every object still represents exactly the integer its own history computes. No operation changes an object that is not its target.",
  ["histories"], "every finite sequence of operations over a pool of objects, every aliasing", "the tests run single operations or short fixed programs on a stack; states left by one operation and used by another are not combined",
  [BI, BH], [("in-place operators and assignments", BI), ("normalisation after each operation", BI)], "model-based testing of random histories against GMP", RND)
p("C18", "Calls outside an operation's domain are refused and leave everything unchanged",
  "Dividing by zero, negative exponents, zero moduli, results too large to represent, unsigned export of negative values, conversion from non-finite numbers and out-of-range conversions always throw a catchable exception. Operands and targets keep their values and stay usable.",
  ["inputs"], "every call outside the domain of its operation, with operands of any size", "the tests try one or two sample operands per error, mostly small ones",
  [BI, "include/exceptions.h"], [("argument checks", BI)], "property-based testing of error cases", RND)
p("C19", "No input causes undefined behaviour, a crash or an endless loop",
  "Every call with any arguments either returns or throws: no memory is accessed out of bounds or after being freed, no arithmetic is undefined, no internal assertion fails and no call runs forever.",
  ["inputs", "histories"], "every input of every public operation: text, bytes, limbs, numbers, operands and histories", "the tests do not run under sanitizers and stay far from the limits of the argument types",
  [BI, CALC + "DivRem.cpp", CALC + "PowMod.cpp", CALC + "GcdInv.cpp", CALC + "SquMul.cpp"], [("index arithmetic and buffer sizes", "src")],
  "property-based testing and coverage-guided fuzzing under ASan and UBSan", "ASan+UBSan build driven by the generators of C01-C18 and raw API calls, then libFuzzer (seeded with generated cases) in both tiers; CPU-time limit per case")
p("C20", "A failed memory allocation is reported without damage",
  "When any single allocation made inside an operation fails, the caller receives the allocation error, no memory is leaked, operands keep their values and the target remains a usable value. Repeating the operation afterwards gives the right result.",
  ["fault_sequences"], "every operation, every operand, every position of the failing allocation", "no test injects allocation failures",
  [BI, CALC + "SquMul.cpp", CALC + "PowMod.cpp"], [("exception safety of the operators", BI), ("working buffers", CALC + "BitsBuffer.cpp")],
  "property-based testing with exhaustive single-fault injection per case", "operator new replaced; for every generated case each allocation of the operation is made to fail in turn; live blocks counted")
p("C21", "Threads that share only constant objects do not disturb one another",
  "When several threads read the same objects, or work on objects of their own, each computes exactly what it would compute alone and no data race occurs. Shared objects keep their values.",
  ["schedules"], "every interleaving of operations of two to four threads on shared constant objects and private ones", "no test runs two threads",
  [BI, CALC + "PowMod.cpp"], [("absence of hidden mutable state", "src")],
  "property-based testing of concurrent programs under ThreadSanitizer and in a stress build", "random per-thread programs over shared constants; ThreadSanitizer's happens-before analysis and GMP results as oracles; the interleavings are those the scheduler produces")
p("C22", "Results do not depend on build configuration or initialisation order",
  "The outcome of every operation, including which exceptions are thrown, is the same whichever compiler, optimisation level, assertion setting or character signedness the library was built with. It is also the same when the library is used from static initialisers of other files.",
  ["configurations", "inputs"], "every input, every supported build configuration and link order", "the tests run one build, and only after static initialisation",
  [BI, BH], [("no dependence on unspecified behaviour, assertions without effects", "src"), ("values needed during static initialisation", BI)],
  "differential testing between builds on generated cases", "the same generated cases of C01-C18 through one harness linked with the library in 11 configurations; digests of all outcomes compared; differences shrunk")
p("C23", "Python conversions are exact in both directions",
  "Every Python int becomes the equal big integer and back, through int, str, bytes, to_array, index, float, deepcopy and hashing, and every byte buffer, including non-contiguous views, becomes the integer its elements denote. Queries and logarithms agree with Python's, and no conversion leaks memory or references.",
  ["inputs"], "every Python int, every byte buffer and view", "the Python tests use fixed small examples and contiguous bytes only",
  [PYB], [("int conversion", PYB), ("buffer constructor", PYB)], "property-based testing with Hypothesis against Python's int", "module compiled from the working tree, 8 Hypothesis workers; memory growth measured on a part of the cases")
p("C24", "Python operators are exact in every operand combination",
  "Every operator of the Python class gives the exact result, with truncating division, for every combination of big integer and int on either side, and returns the big integer type when the left operand is one and int otherwise. In-place operators rebind without changing other references, and operands never change.",
  ["inputs"], "every pair of integers, every operator, every operand combination", "the Python tests use a few fixed values per operator",
  [PYB, BI], [("operator overloads and reflected forms", PYB)], "property-based testing with Hypothesis against a model over int", "as C23")
p("C25", "Python errors are exceptions, never crashes or wrong results",
  "Every misuse from Python (zero divisors, negative or oversized exponents and shift amounts, foreign types, unsuitable or released buffers) raises an exception of the fitting kind; the interpreter never dies. Objects keep their values and stay usable.",
  ["inputs"], "every misuse with operands of any size", "the Python tests cover a few of these errors with one operand each",
  [PYB], [("type and range checks, exception translation", PYB)], "property-based testing with Hypothesis, also on an ASan+UBSan build", "as C23, plus the module built with ASan and UBSan; a dead interpreter is traced to its case in child processes")
p("C26", "Python comparison, hashing and containers behave like int",
  "All comparisons between big integers and ints, on either side, agree with the integers. Equal objects have equal hashes, including ints, so dictionaries, sets, sorting and searching behave as they do with the corresponding ints over any sequence of container operations.",
  ["inputs", "histories"], "every pair of integers and every sequence of container operations", "the Python tests compare a few fixed values and hash two",
  [PYB], [("comparison overloads, __hash__", PYB)], "property-based and model-based testing with Hypothesis", "as C23; containers mirrored on ints")

p("C27", "Python objects keep their values over any history and across threads",
  "After any sequence of Python operations, including in-place operators, copies, refused calls and objects that have been released, every big integer has the value its own history computes. The same holds when several threads share or compute with big integers at once, and when the numbers and buffers passed in run Python code of their own in the middle of a call.",
  ["inputs", "histories", "schedules"], "every sequence of operations in every number of threads, and every interleaving of them", "the Python tests are single-threaded and pass plain ints",
  [PYB], [("int conversion and operator overloads", PYB)], "model-based testing with Hypothesis over operation sequences in several threads, with re-entrant operands, also under ThreadSanitizer", "operations mirrored on ints; schedules are those of the interpreter with the shortest switch interval")

p("C28", "Work and memory are bounded by the lengths of the numbers",
  "The work of every operation is at most a fixed multiple of what the schoolbook method needs for operands and a result of those lengths - for equally long factors, squares and powers, less than quadratic - and the memory it holds at most a fixed multiple of those lengths. Its stack space does not grow with them, beyond a little for each halving of long factors. Neither depends on the values otherwise: extreme shifts, exponents, zeros, padding or unfavourable digits never make a call on short numbers slow or large.",
  ["inputs"], "every operation, all lengths and shapes of operands, every shift amount and exponent whose result is short", "no test measures work or memory, and all stay with short operands",
  [BI, CALC + "SquMul.cpp", CALC + "GcdInv.cpp", CALC + "PowMod.cpp", CALC + "DivRem.cpp"], [("divide and conquer products", CALC + "SquMul.cpp"), ("Lehmer steps", CALC + "GcdInv.cpp"), ("shifts by extreme amounts", BI)],
  "property-based testing with deterministic work and memory counters", "basic blocks executed, bytes allocated and the depth of the stack are counted (no clock), and compared with a bound computed from the lengths; the factors are about four times what the tree needs, three times for products")

p("C29", "Calls leave their surroundings alone and do not depend on them",
  "No operation, whether it completes or refuses, changes anything but its target: the locales, the floating-point rounding mode, traps and raised flags, signal handlers, environment, standard streams and open files stay as they were, and nothing is written to any stream. No integer, text, byte or boolean result depends on those settings, on errno, on what freed memory contained, or on the thread that makes the call.",
  ["inputs", "configurations"], "every operation and input, in every state of the surrounding program", "the tests all run in a freshly started program with default settings and look at nothing but results",
  [BI, "include/NumericsHelpers.h"], [("text conversion", BI), ("floating-point conversion", "include/NumericsHelpers.h")],
  "metamorphic property-based testing: each case repeated in changed surroundings", "process state read before and after each run; floating-point results are not compared under another rounding mode; files are looked at as descriptors, not contents")

p("C30", "Stub packages match the wheel and are polished completely",
  "Given a directory holding one wheel for this interpreter and machine among any others, tools/generate-stubs.py installs that wheel and packages its stubs under the wheel's own version, requiring exactly that version. tools/fix-stubs.py rewrites each of its legacy notations wherever it occurs, however many share a line, changes no other text, and adds the import of BigInteger to the stubs of neo3vm.",
  ["inputs"], "every stub file, wheel directory, package name and version", "no test runs the tools",
  ["tools/fix-stubs.py", "tools/generate-stubs.py"], [("rewriting", "tools/fix-stubs.py"), ("choice of the wheel", "tools/generate-stubs.py")],
  "property-based testing with Hypothesis; commands are played by stand-ins", "pip, pybind11-stubgen and bdist_wheel are stand-ins that record the call; versions are of the common forms")

NA = []

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, _, _ in P:
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps(d) + "\n")
    m = {"version": 1, "setup_cmd": "python3 tools/build.py all",
         "checks": [dict(property=d["id"], quick_cmd=f"python3 tools/check.py {d['id']} quick", thorough_cmd=f"python3 tools/check.py {d['id']} thorough", technique=t, level="exploration", level_note=n) for d, t, n in P],
         "not_applicable": NA}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
