// C29: a case of C01-C18 is run twice, the second time in a program whose surroundings have been changed; both have to
// give the same, and after each run the surroundings have to be as they were.
#include "gen.h"
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <iomanip>
#include <iostream>
#include <locale>
#include <malloc.h>
#include <new>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>

extern char** environ;
namespace {
char randomState[128];

struct State { // what a program has besides its objects
    std::string cLocale;
    std::locale locale;
    int rounding, traps;
    unsigned mxcsr, x87, sticky;
    std::ios_base::fmtflags flags[3];
    std::streamsize precision[3];
    std::ios_base::iostate except[3];
    std::streambuf* buf[3];
    std::locale streamLocale[3];
    char random[sizeof randomState];
    std::terminate_handler term;
    std::new_handler fresh;
    struct sigaction act[32];
    sigset_t mask;
    ino_t cwd;
    mode_t um;
    uint64_t env;
    unsigned files;
    itimerval realTimer;
    rlimit limits[RLIM_NLIMITS];

    State() {
        cLocale = setlocale(LC_ALL, nullptr);
        rounding = fegetround();
        traps = fegetexcept();
        unsigned short cw;
        asm volatile("stmxcsr %0" : "=m"(mxcsr));
        asm volatile("fnstcw %0" : "=m"(cw));
        sticky = mxcsr & 0x3f; // arithmetic raises these; nobody clears them
        mxcsr &= ~0x3fu;
        x87 = cw;
        std::ios* st[] = {&std::cout, &std::cerr, &std::cin};
        for (int i = 0; i < 3; i++) { flags[i] = st[i]->flags(); precision[i] = st[i]->precision(); except[i] = st[i]->exceptions(); buf[i] = st[i]->rdbuf(); streamLocale[i] = st[i]->getloc(); }
        memcpy(random, randomState, sizeof random);
        term = std::get_terminate();
        fresh = std::get_new_handler();
        for (int i = 1; i < 32; i++) { memset(&act[i], 0, sizeof act[i]); sigaction(i, nullptr, &act[i]); }
        sigemptyset(&mask);
        pthread_sigmask(SIG_SETMASK, nullptr, &mask);
        struct stat sb;
        cwd = stat(".", &sb) ? 0 : sb.st_ino;
        um = umask(0);
        umask(um);
        env = 0;
        for (char** e = environ; *e; e++) for (char* p = *e; *p; p++) env = env * 1099511628211ull + static_cast<unsigned char>(*p);
        files = 0;
        for (int i = 0; i < 24; i++) files |= (fcntlOk(i) ? 1u : 0u) << i;
        getitimer(ITIMER_REAL, &realTimer);
        for (int i = 0; i < RLIM_NLIMITS; i++) getrlimit(static_cast<__rlimit_resource>(i), &limits[i]);
    }
    static bool fcntlOk(int fd) { struct stat sb; return fstat(fd, &sb) == 0; }
    const char* differs(const State& o) const {
        if (cLocale != o.cLocale) return "the C locale";
        if (locale != o.locale) return "the global locale";
        if (rounding != o.rounding) return "the rounding mode";
        if (traps != o.traps) return "the floating-point traps";
        if (mxcsr != o.mxcsr || x87 != o.x87) return "the floating-point control words";
        if (sticky & ~o.sticky) return "a sticky floating-point flag";
        for (int i = 0; i < 3; i++)
            if (flags[i] != o.flags[i] || precision[i] != o.precision[i] || except[i] != o.except[i] || buf[i] != o.buf[i] || streamLocale[i] != o.streamLocale[i]) return "the state of a standard stream";
        if (memcmp(random, o.random, sizeof random)) return "the state of rand()";
        if (term != o.term || fresh != o.fresh) return "a global handler";
        for (int i = 1; i < 32; i++) if (act[i].sa_handler != o.act[i].sa_handler || act[i].sa_flags != o.act[i].sa_flags) return "a signal handler";
        for (int i = 1; i < 32; i++) if (sigismember(&mask, i) != sigismember(&o.mask, i)) return "the signal mask";
        if (cwd != o.cwd) return "the working directory";
        if (um != o.um) return "the umask";
        if (env != o.env) return "the environment";
        if (files != o.files) return "the open files";
        if ((realTimer.it_value.tv_sec | realTimer.it_value.tv_usec) == 0 && (o.realTimer.it_value.tv_sec | o.realTimer.it_value.tv_usec)) return "a timer";
        if (memcmp(limits, o.limits, sizeof limits)) return "a resource limit";
        return nullptr;
    }
};

struct Capture { // what is written to the standard streams meanwhile
    int file, out, err;
    static int shared() { static int fd = memfd_create("out", 0); return fd; }
    Capture() {
        file = shared();
        std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(stdout);
        ftruncate(file, 0);
        lseek(file, 0, SEEK_SET);
        out = dup(1); err = dup(2);
        dup2(file, 1); dup2(file, 2);
    }
    std::string end() {
        std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(stdout);
        dup2(out, 1); dup2(err, 2); close(out); close(err);
        char b[200];
        ssize_t n = pread(file, b, sizeof b, 0);
        return std::string(b, n > 0 ? static_cast<size_t>(n) : 0);
    }
};

struct Grouping : std::numpunct<char> {
    char do_thousands_sep() const override { return '.'; }
    char do_decimal_point() const override { return ','; }
    std::string do_grouping() const override { return "\2"; }
    std::string do_truename() const override { return "0"; }
};

// one run: the outcome as text, and what it did to its surroundings
std::string once(Ctx& c, const Prop& p, std::string& effect, int error = 0) {
    State before;
    std::string outcome, written;
    {
        Capture cap;
        errno = error;
        try { p.fn(c); outcome = "held"; }
        catch (const Fail& f) { outcome = "fails: " + f.msg; }
        catch (const std::exception& e) { outcome = "threw " + exName(e); }
        written = cap.end();
    }
    State after;
    if (const char* d = before.differs(after)) effect = std::string(d) + " changed";
    else if (!written.empty()) effect = "written to a standard stream: " + written;
    return outcome + " " + std::to_string(c.digest);
}
}

PROPERTY(C29, "a generated case of C01-C18, run once plainly and once more with the same choices in changed surroundings (global locales, rounding mode, sticky floating-point flags, errno, stream flags, filled heap memory, another thread); outcomes compared, and the surroundings and standard streams compared before and after each run; non-trivial by the rule of the underlying case") {
    static std::vector<const Prop*> subs;
    if (subs.empty()) for (auto& p : allProps()) if (std::string(p.id) < "C19") subs.push_back(&p);
    static bool init = (initstate(7, randomState, sizeof randomState), true);
    (void)init;
    Capture::shared();
    const Prop& p = *subs[c.s.below(subs.size())];
    std::string id = p.id;
    unsigned how = 1 + c.s.below(255);
    bool floats = id == "C13" || id == "C14" || id == "C17"; // floating-point results, which the rounding mode may change
    static const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
    int mode = (how & 1) ? c.s.pick(modes) : FE_TONEAREST;
    c.label("case of " + id);
    if (c.describe) c.desc += "[" + id + ", surroundings " + std::to_string(how) + " " + std::to_string(mode) + "]";
    size_t from = c.s.consumed();
    std::string effect, first = once(c, p, effect);
    REQUIRE(c, effect.empty(), effect);

    Source again = c.s.again(from);
    Ctx c2(again, false);
    static const std::locale grouping(std::locale::classic(), new Grouping);
    if (mode != FE_TONEAREST) { fesetround(mode); c.label("another rounding mode"); }
    if (how & 2) { std::locale::global(grouping); c.label("another global locale"); }
    if (how & 4) { setlocale(LC_ALL, "C.UTF-8"); c.label("another C locale"); }
    if (how & 8) { feraiseexcept(FE_ALL_EXCEPT); c.label("floating-point flags raised"); }
    if (how & 16) { std::cout << std::hex << std::showbase << std::setprecision(3); c.label("other stream flags"); }
    if (how & 32) { mallopt(M_PERTURB, 0x5a ^ static_cast<int>(how)); c.label("filled heap"); }
    std::string second;
    auto run = [&] { second = once(c2, p, effect, how & 64 ? (how & 2) ? ERANGE : EDOM : 0); };
    if ((how & 128) && (how & 1)) {
        c.label("another thread");
        std::thread([&] { if (mode != FE_TONEAREST) fesetround(mode); run(); }).join();
    } else run();
    if (mode != FE_TONEAREST) fesetround(FE_TONEAREST);
    if (how & 2) std::locale::global(std::locale::classic());
    if (how & 4) setlocale(LC_ALL, "C");
    feclearexcept(FE_ALL_EXCEPT);
    if (how & 16) { std::cout.flags(std::ios_base::skipws | std::ios_base::dec); std::cout.precision(6); }
    if (how & 32) mallopt(M_PERTURB, 0);
    REQUIRE(c, effect.empty(), effect);
    if (floats && mode != FE_TONEAREST) { c.label("only effects looked for"); return; }
    REQUIRE(c, first == second, "in other surroundings: " + second.substr(0, 600) + " instead of " + first.substr(0, 600));
}
