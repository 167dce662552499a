// Driver: random generation in parallel worker processes, crash/hang recovery, out-of-process shrinking, replay,
// and trace mode.  Links with the props_*.cpp files and (in the libFuzzer flavour) is replaced by fuzz.cpp.
#include "engine.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <unordered_set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

std::string exName(const std::exception& e);

#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifndef HAVE_ASAN
#define HAVE_ASAN 0
#endif
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define NO_AS_LIMIT 1
#endif
#endif
extern "C" const char* __asan_default_options() { return "exitcode=77:max_malloc_fill_size=1048576:abort_on_error=0:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=3000:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:handle_abort=0:detect_odr_violation=0"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1:exitcode=77"; }
extern "C" const char* __tsan_default_options() { return "exitcode=77:halt_on_error=1:second_deadlock_stack=1"; }

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Slot {
    volatile uint64_t index, evals, nontrivial;
    volatile uint32_t recLen;
    volatile uint32_t state; // 0 running, 1 finished, 2 property failed
    char msg[4096];
    uint8_t rec[CHOICE_CAP];
};

static int caseSeconds = 10;
// Real-time limit as well as CPU time: a deadlocked case burns no CPU.
static void armTimer(int cpu) {
    itimerval t{};
    t.it_value.tv_sec = cpu;
    setitimer(ITIMER_PROF, &t, nullptr);
    itimerval r{};
    r.it_value.tv_sec = cpu ? cpu * 12 : 0;
    setitimer(ITIMER_REAL, &r, nullptr);
}

static uint64_t caseSeed(uint64_t seed, const std::string& prop, uint64_t i) {
    Rng r(seed * 0x9E3779B97F4A7C15ull + 12345);
    uint64_t h = r.next();
    for (char c : prop) h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull;
    Rng q(h + i * 0xD1B54A32D192ED03ull);
    q.next();
    return q.next();
}

// Runs one case. Returns true when the property held; otherwise msg says what failed.
static bool runCase(const Prop& p, Ctx& c, std::string& msg) {
    try {
        p.fn(c);
        return true;
    } catch (const Fail& f) {
        msg = f.msg;
    } catch (const std::exception& e) {
        msg = "unexpected exception " + exName(e);
    } catch (...) {
        msg = "unexpected exception of unknown type";
    }
    return false;
}

static std::string jsonStr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += static_cast<char>(ch); }
        else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += static_cast<char>(ch);
    }
    return r + "\"";
}

static std::map<std::string, std::string> args;
static std::string arg(const std::string& k, const std::string& d) { auto it = args.find(k); return it == args.end() ? d : it->second; }

static std::string tmpBase;

// How a child that runs cases ended: "" when the property held, else a description of what happened.
static std::string ending(int st, Slot* slot) {
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
    if (slot->state == 2) return std::string("fail: ") + slot->msg;
    if (WIFEXITED(st)) return WEXITSTATUS(st) == 77 ? "crash: sanitizer report" : "crash: exit status " + std::to_string(WEXITSTATUS(st));
    if (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM) return "hang: no result within the per-case time limit";
    return std::string("crash: ") + strsignal(WTERMSIG(st));
}
static void startSlot(Slot* slot) { slot->state = 0; slot->msg[0] = 0; slot->recLen = 0; fflush(nullptr); }
[[noreturn]] static void caseFailed(Slot* slot, const std::string& msg) {
    snprintf(slot->msg, sizeof slot->msg, "%s", msg.c_str());
    slot->state = 2;
    _exit(3);
}

static void workerMain(const Prop& p, Slot* slot, uint64_t seed, uint64_t cases, unsigned w, unsigned W, double deadline) {
    std::map<std::string, uint64_t> labels;
    std::vector<uint64_t> hashes;
    std::vector<std::string> samples;
    uint64_t maxChoices = 0;
    for (uint64_t i = w; i < cases; i += W) {
        if (now() > deadline) break;
        slot->index = i;
        armTimer(caseSeconds);
        Source src(caseSeed(seed, p.id, i), slot->rec, &slot->recLen);
        Ctx c(src, false);
        c.labels = &labels;
        std::string msg;
        bool ok = runCase(p, c, msg);
        if (!ok) { armTimer(0); caseFailed(slot, msg); }
        slot->evals = slot->evals + 1;
        maxChoices = std::max<uint64_t>(maxChoices, slot->recLen);
        if (c.nontrivial) {
            slot->nontrivial = slot->nontrivial + 1;
            hashes.push_back(c.hash);
            if (samples.size() < 3 && (slot->evals % 37) == 1 + w % 7) {
                std::vector<uint8_t> copy(slot->rec, slot->rec + slot->recLen);
                Source s2(copy.data(), copy.size());
                Ctx d(s2, true);
                if (runCase(p, d, msg) && d.desc.size() < 1500) samples.push_back(d.desc.substr(0, 700));
            }
        }
    }
    armTimer(0);
    std::ofstream f(tmpBase + "." + std::to_string(w), std::ios::binary);
    auto put = [&](uint64_t v) { f.write(reinterpret_cast<char*>(&v), 8); };
    auto puts = [&](const std::string& s) { put(s.size()); f.write(s.data(), s.size()); };
    put(hashes.size()); f.write(reinterpret_cast<char*>(hashes.data()), hashes.size() * 8);
    put(labels.size()); for (auto& l : labels) { puts(l.first); put(l.second); }
    put(samples.size()); for (auto& s : samples) puts(s);
    put(maxChoices);
    f.close();
    slot->state = 1;
    _exit(0);
}

static void silence() {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1); dup2(fd, 2);
}

// Runs the choices in a child.
static std::string tryChoices(const Prop& p, const std::vector<uint8_t>& ch, int cpu, Slot* slot, bool quiet = true, size_t* used = nullptr) {
    startSlot(slot);
    pid_t pid = fork();
    if (pid == 0) {
        if (quiet) silence();
        armTimer(cpu);
        Source s(ch.data(), ch.size());
        Ctx c(s, false);
        std::string msg;
        bool ok = runCase(p, c, msg);
        slot->recLen = static_cast<uint32_t>(s.consumed());
        if (!ok) caseFailed(slot, msg);
        slot->state = 1;
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (used) *used = slot->state ? slot->recLen : ch.size();
    return ending(st, slot);
}

// Runs generated cases one after another in one child: a failure may depend on what earlier cases left behind.
static std::string trySequence(const Prop& p, uint64_t seed, const std::vector<uint64_t>& cases, Slot* slot, double end, bool quiet = true) {
    startSlot(slot);
    pid_t pid = fork();
    if (pid == 0) {
        if (quiet) silence();
        stressSeconds = 0.03;
        for (uint64_t i : cases) {
            if (now() > end) _exit(0);
            armTimer(caseSeconds);
            slot->index = i;
            Source s(caseSeed(seed, p.id, i), slot->rec, &slot->recLen);
            Ctx c(s, false);
            std::string msg;
            if (!runCase(p, c, msg)) caseFailed(slot, msg);
        }
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    return ending(st, slot);
}
#ifdef STRESS // the same race shows in different ways
static std::string kindOf(const std::string& s) { return s.empty() ? "" : "wrong"; }
#else
static std::string kindOf(const std::string& s) { return s.substr(0, s.find(':')); }
#endif
double stressSeconds = 0.008;

// A race needs luck: fresh processes (what happens on first use happens once in each), then one that goes on for longer.
static std::string tryHard(const Prop& p, const std::vector<uint8_t>& ch, Slot* slot, bool quiet, int fresh, double longer) {
#ifdef STRESS
    stressSeconds = 0.01;
    for (int i = 0; i < fresh; i++) { std::string r = tryChoices(p, ch, caseSeconds, slot, quiet); if (!r.empty()) return r; }
    stressSeconds = longer;
#endif
    return tryChoices(p, ch, caseSeconds, slot, quiet);
}

static std::vector<uint8_t> shrink(const Prop& p, std::vector<uint8_t> best, const std::string& kind, Slot* slot, double budget) {
    double end = now() + budget;
    int cpu = kind == "hang" ? 2 : caseSeconds;
    #ifdef STRESS
    auto bad = [&](const std::vector<uint8_t>& c) { return !tryHard(p, c, slot, true, 8, 0.1).empty(); };
#else
    auto bad = [&](const std::vector<uint8_t>& c) { return kindOf(tryChoices(p, c, cpu, slot)) == kind; };
#endif
    size_t used = best.size();
    tryChoices(p, best, cpu, slot, true, &used);
    if (used < best.size()) { std::vector<uint8_t> c(best.begin(), best.begin() + used); if (bad(c)) best = c; }
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t len = best.size() / 2; len > 0 && now() < end; len /= 2) { // truncate
            if (len > best.size()) continue;
            std::vector<uint8_t> c(best.begin(), best.end() - len);
            if (bad(c)) { best = c; progress = true; }
        }
        for (size_t chunk : {64, 32, 16, 8, 4, 3, 2, 1}) { // delete
            for (size_t i = best.size(); i-- > 0 && now() < end;) {
                if (i + chunk > best.size()) continue;
                std::vector<uint8_t> c = best;
                c.erase(c.begin() + i, c.begin() + i + chunk);
                if (bad(c)) { best = c; progress = true; }
                if (best.size() > 600 && chunk < 8) i -= std::min(i, chunk);
            }
        }
        for (size_t chunk : {32, 8, 4, 1}) { // zero
            for (size_t i = 0; i < best.size() && now() < end; i += chunk) {
                std::vector<uint8_t> c = best;
                for (size_t j = i; j < i + chunk && j < c.size(); j++) c[j] = 0;
                if (c != best && bad(c)) { best = c; progress = true; }
            }
        }
        for (size_t i = 0; i < best.size() && now() < end; i++) { // lower single bytes
            if (!best[i]) continue;
            int lo = 0, hi = best[i];
            for (int guess : {1, 2, best[i] / 2, best[i] - 1}) {
                if (guess <= lo || guess >= hi) continue;
                std::vector<uint8_t> c = best;
                c[i] = static_cast<uint8_t>(guess);
                if (bad(c)) { best = c; hi = guess; progress = true; break; }
            }
        }
        while (!best.empty() && best.back() == 0) { // replay pads with zeros anyway
            std::vector<uint8_t> c(best.begin(), best.end() - 1);
            if (!bad(c)) break;
            best = c;
        }
    }
    return best;
}

static std::string describe(const Prop& p, const std::vector<uint8_t>& ch) { // in a child: may crash
    int fd[2];
    if (pipe(fd)) return "";
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        silence();
        armTimer(caseSeconds);
        stressSeconds = 0.01;
        static Source s(ch.data(), ch.size());
        static Ctx c(s, true);
        // the description grows while the case runs; send it from every way out
        static int out = fd[1];
        auto send = [] { std::string d = c.desc.substr(0, 60000); if (write(out, d.data(), d.size())) {} };
        struct H { static void h(int) { std::string d = c.desc.substr(0, 60000); if (write(out, d.data(), d.size())) {} _exit(0); } };
        for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGPROF, SIGALRM, SIGBUS, SIGILL}) signal(sg, H::h);
#if HAVE_ASAN
        extern void setDeath(void (*)());
        setDeath([] { std::string d = c.desc.substr(0, 60000); if (write(out, d.data(), d.size())) {} });
#endif
        std::string m;
        runCase(p, c, m);
        send();
        _exit(0);
    }
    close(fd[1]);
    std::string r; char b[4096]; ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) r.append(b, n);
    close(fd[0]);
    waitpid(pid, nullptr, 0);
    return r;
}
#if HAVE_ASAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
void setDeath(void (*f)()) { __sanitizer_set_death_callback(f); }
#endif

static bool readReplay(const std::string& path, std::string& prop, std::vector<uint8_t>& ch, uint64_t& seed, std::vector<uint64_t>& seq) {
    std::ifstream f(path);
    std::string line;
    bool got = false;
    while (std::getline(f, line)) {
        if (line.rfind("property: ", 0) == 0) prop = line.substr(10);
        if (line.rfind("sequence: ", 0) == 0) {
            std::istringstream is(line.substr(10));
            std::string word;
            is >> word >> seed >> word;
            for (uint64_t i; is >> i;) seq.push_back(i);
            got = !seq.empty();
        }
        if (line.rfind("choices: ", 0) == 0 || line == "choices:") {
            got = true;
            std::string h = line.size() > 9 ? line.substr(9) : "";
            for (size_t i = 0; i + 1 < h.size(); i += 2) ch.push_back(static_cast<uint8_t>(std::stoul(h.substr(i, 2), nullptr, 16)));
        }
    }
    return got;
}

static Slot* shmSlots(unsigned n) {
    void* m = mmap(nullptr, sizeof(Slot) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); exit(2); }
    return static_cast<Slot*>(m);
}

// Confirms, shrinks and writes a replay file for the choices; returns true if a violation was confirmed.
static bool conclude(const Prop& p, std::vector<uint8_t> ch, const std::string& origin, std::string& kindMsg, std::string& path) {
    Slot* slot = shmSlots(1);
    std::string first = tryHard(p, ch, slot, true, 400, 1.5);
    if (first.empty()) return false;
    std::string kind = kindOf(first);
    ch = shrink(p, ch, kind, slot, std::stod(arg("shrink", "45")));
    std::string last;
    for (int i = 0; i < 2; i++) { last = tryHard(p, ch, slot, true, 400, 1.5); if (last.empty()) return false; }
    std::string d = describe(p, ch);
    std::string dir = arg("replay-dir", ".");
    uint64_t h = 1469598103934665603ull;
    for (uint8_t b : ch) h = (h ^ b) * 1099511628211ull;
    char name[128];
    snprintf(name, sizeof name, "%s-%s-%016llx.replay", p.id, arg("flavour", "x").c_str(), static_cast<unsigned long long>(h));
    path = dir + "/" + name;
    std::ofstream f(path);
    f << "property: " << p.id << "\n" << "flavour: " << arg("flavour", "x") << "\n" << "origin: " << origin << "\n";
    f << "choices: " << hexOf(ch.data(), ch.size()) << "\n";
    f << "# outcome: " << last << "\n";
    f << "# case: " << d << "\n";
    kindMsg = last + " | case: " + d.substr(0, 1500);
    return true;
}

// The failure of a worker did not happen to its last case alone: look for the earlier cases that it takes.
static bool concludeSequence(const Prop& p, uint64_t seed, uint64_t first, uint64_t step, uint64_t index, std::string& kindMsg, std::string& path) {
#ifdef STRESS
    return false;
#endif
    Slot* slot = shmSlots(1);
    std::vector<uint64_t> all, seq;
    for (uint64_t i = first; i <= index; i += step) all.push_back(i);
    double end = now() + 60;
    std::string r;
    for (size_t n = 2; r.empty() && now() < end; n *= 8) {
        seq.assign(all.size() > n ? all.end() - n : all.begin(), all.end());
        r = trySequence(p, seed, seq, slot, end);
        if (n >= all.size()) break;
    }
    if (r.empty()) return false;
    std::string kind = kindOf(r);
    end = now() + std::stod(arg("shrink", "45"));
    for (size_t chunk = seq.size() / 2; chunk > 0 && now() < end; chunk = chunk > 1 && chunk < 4 ? 1 : chunk / 2)
        for (size_t i = 0; i + chunk <= seq.size() && seq.size() > 1 && now() < end;) {
            std::vector<uint64_t> c = seq;
            c.erase(c.begin() + i, c.begin() + i + chunk);
            if (kindOf(trySequence(p, seed, c, slot, now() + 60)) == kind) seq = c; else i += chunk;
        }
    for (int i = 0; i < 2; i++) { r = trySequence(p, seed, seq, slot, now() + 60); if (r.empty()) return false; }
    char name[128];
    snprintf(name, sizeof name, "%s-%s-sequence-%llu-%llu.replay", p.id, arg("flavour", "x").c_str(), static_cast<unsigned long long>(seed), static_cast<unsigned long long>(index));
    path = arg("replay-dir", ".") + "/" + name;
    std::ofstream f(path);
    f << "property: " << p.id << "\nflavour: " << arg("flavour", "x") << "\nsequence: seed " << seed << " cases";
    for (uint64_t i : seq) f << " " << i;
    f << "\n# outcome: " << r << "\n";
    kindMsg = r + " | after " + std::to_string(seq.size()) + " generated cases in one process";
    for (size_t k = 0; k < seq.size() && k < 12; k++) { // what these cases are
        std::vector<uint64_t> one{seq[k]};
        trySequence(p, seed, one, slot, now() + 60);
        std::string d = describe(p, std::vector<uint8_t>(slot->rec, slot->rec + std::min<size_t>(slot->recLen, CHOICE_CAP)));
        f << "# case " << seq[k] << ": " << d << "\n";
        if (seq.size() <= 4) kindMsg += " | " + d.substr(0, 500);
    }
    return true;
}

static int doRun(const Prop& p) {
    unsigned P = std::stoul(arg("workers", "8")); // processes at a time
    uint64_t seed = std::stoull(arg("seed", "1")), cases = std::stoull(arg("cases", "1000")), chunk = std::stoull(arg("chunk", "0"));
    unsigned W = chunk ? std::max<unsigned>(P, static_cast<unsigned>(std::min<uint64_t>(cases / chunk, 20000))) : P; // processes in all
    double wall = std::stod(arg("wall", "60"));
    double t0 = now(), deadline = t0 + wall;
    Slot* slots = shmSlots(W);
    tmpBase = arg("tmp", "/tmp/pbt") + "." + std::to_string(getpid());
    std::vector<pid_t> pids(W);
    unsigned started = 0, alive = 0;
    std::vector<std::string> unconfirmed;
    bool violation = false;
    std::string msg, path;
    for (;;) {
        for (; started < W && alive < P && !violation; started++, alive++) {
            fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) workerMain(p, &slots[started], seed, cases, started, W, deadline);
            pids[started] = pid;
        }
        if (!alive) break;
        int st;
        pid_t pid = waitpid(-1, &st, 0);
        if (pid < 0) break;
        unsigned w = std::find(pids.begin(), pids.end(), pid) - pids.begin();
        if (w >= W) continue;
        alive--; pids[w] = 0;
        if (slots[w].state == 1 || violation) continue;
        std::vector<uint8_t> ch(slots[w].rec, slots[w].rec + std::min<size_t>(slots[w].recLen, CHOICE_CAP));
        std::string origin = "seed " + std::to_string(seed) + " case " + std::to_string(slots[w].index);
        for (pid_t q : pids) if (q) kill(q, SIGSTOP); // leave the CPU to the shrinker
        if (conclude(p, ch, origin, msg, path) || (slots[w].index > w && concludeSequence(p, seed, w, W, slots[w].index, msg, path))) {
            violation = true;
            for (pid_t q : pids) if (q) { kill(q, SIGKILL); }
        } else {
            for (pid_t q : pids) if (q) kill(q, SIGCONT);
            unconfirmed.push_back(origin + ": " + (slots[w].state == 2 ? slots[w].msg : "worker ended, status " + std::to_string(st)));
        }
    }
    // merge
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    uint64_t evals = 0, nontrivial = 0, maxChoices = 0;
    for (unsigned w = 0; w < W; w++) {
        evals += slots[w].evals; nontrivial += slots[w].nontrivial;
        std::string fn = tmpBase + "." + std::to_string(w);
        std::ifstream f(fn, std::ios::binary);
        if (!f) continue;
        auto get = [&] { uint64_t v = 0; f.read(reinterpret_cast<char*>(&v), 8); return v; };
        auto gets = [&] { std::string s(get(), 0); f.read(&s[0], s.size()); return s; };
        for (uint64_t n = get(); n--;) distinct.insert(get());
        for (uint64_t n = get(); n--;) { std::string k = gets(); labels[k] += get(); }
        for (uint64_t n = get(); n--;) samples.push_back(gets());
        maxChoices = std::max(maxChoices, get());
        unlink(fn.c_str());
    }
    std::stable_sort(samples.begin(), samples.end(), [](auto& a, auto& b) { return a.size() < b.size(); });
    std::vector<std::string> pickd;
    for (size_t i = 0; i < samples.size() && pickd.size() < 6; i += std::max<size_t>(1, samples.size() / 6)) pickd.push_back(samples[i]);
    std::ostringstream o;
    o << "{\"property\":" << jsonStr(p.id) << ",\"rule\":" << jsonStr(p.rule) << ",\"evaluations\":" << evals << ",\"nontrivial\":" << nontrivial
      << ",\"distinct_nontrivial\":" << distinct.size() << ",\"cases_planned\":" << cases << ",\"wall_s\":" << now() - t0
      << ",\"max_choices\":" << maxChoices << ",\"labels\":{";
    bool first = true;
    for (auto& l : labels) { o << (first ? "" : ",") << jsonStr(l.first) << ":" << l.second; first = false; }
    o << "},\"samples\":[";
    for (size_t i = 0; i < pickd.size(); i++) o << (i ? "," : "") << jsonStr(pickd[i]);
    o << "],\"unconfirmed\":[";
    for (size_t i = 0; i < unconfirmed.size(); i++) o << (i ? "," : "") << jsonStr(unconfirmed[i]);
    o << "],\"violation\":" << (violation ? jsonStr(msg) : "null") << ",\"replay\":" << (violation ? jsonStr(path) : "null") << "}\n";
    if (args.count("out")) { std::ofstream f(args["out"]); f << o.str(); }
    else std::cout << o.str();
    return violation ? 1 : 0;
}

// One line per case with a digest of everything observable, for comparing builds.
static int doTrace(const Prop& p) {
    uint64_t seed = std::stoull(arg("seed", "1")), from = std::stoull(arg("from", "0")), cases = std::stoull(arg("cases", "1000"));
    for (uint64_t i = from; i < from + cases; i++) {
        std::vector<uint8_t> rec(CHOICE_CAP);
        uint32_t len = 0;
        Source src(caseSeed(seed, p.id, i), rec.data(), &len);
        Ctx c(src, args.count("describe"));
        armTimer(caseSeconds);
        std::string msg;
        bool ok = runCase(p, c, msg);
        armTimer(0);
        printf("%llu %016llx %016llx %d%s\n", (unsigned long long)i, (unsigned long long)c.digest, (unsigned long long)c.hash, c.nontrivial ? 1 : 0, ok ? "" : (" FAILED " + msg).c_str());
        if (args.count("describe")) printf("  %s\n%s", c.desc.c_str(), c.trace.c_str());
        fflush(stdout);
    }
    return 0;
}

// Reads choices in hex, one case per line; answers with one line: the digest of everything observable, or how it ended.
static int doServe(const Prop& p, bool describeToo) {
    std::string line;
    Slot* slot = shmSlots(1);
    while (std::getline(std::cin, line)) {
        std::vector<uint8_t> ch;
        for (size_t i = 0; i + 1 < line.size(); i += 2) ch.push_back(static_cast<uint8_t>(std::stoul(line.substr(i, 2), nullptr, 16)));
        slot->state = 0; slot->msg[0] = 0;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            silence();
            armTimer(caseSeconds);
            Source s(ch.data(), ch.size());
            Ctx c(s, describeToo);
            std::string msg;
            bool ok = runCase(p, c, msg);
            slot->recLen = static_cast<uint32_t>(s.consumed());
            snprintf(slot->msg, sizeof slot->msg, "%016llx %s%s%s", (unsigned long long)c.digest, ok ? "" : "FAILED ", msg.c_str(), describeToo ? (" | " + c.desc.substr(0, 1500) + " | " + c.trace.substr(0, 1800)).c_str() : "");
            slot->state = 1;
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        std::string out = slot->state == 1 ? std::string(slot->msg) : WIFSIGNALED(st) ? std::string("ended by ") + strsignal(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
        for (char& ch2 : out) if (ch2 == '\n' || ch2 == '\r') ch2 = ' ';
        std::cout << slot->recLen << " " << out << std::endl;
    }
    return 0;
}

static void limitMemory(uint64_t gb) {
    rlimit rl{};
    getrlimit(RLIMIT_AS, &rl);
    rl.rlim_cur = gb << 30;
    setrlimit(RLIMIT_AS, &rl);
}

static const Prop* chosenProp(const std::string& id) { // those named ...huge need more than the others
    if (id.size() > 4 && id.compare(id.size() - 4, 4, "huge") == 0) { limitMemory(20); caseSeconds = 240; }
    return findProp(id);
}

int harnessMain(int argc, char** argv) {
    std::string mode = argc > 1 ? argv[1] : "";
    std::vector<std::string> pos;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        if (a.rfind("--", 0) == 0) { args[a.substr(2)] = i + 1 < argc ? argv[i + 1] : ""; i++; }
        else pos.push_back(a);
    }
    caseSeconds = std::stoi(arg("case-seconds", "10"));
#if !HAVE_ASAN && !defined(__SANITIZE_THREAD__) && !defined(NO_AS_LIMIT)
    limitMemory(6);
#endif
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    if (mode == "list") { for (auto& p : allProps()) std::cout << p.id << "\n"; return 0; }
    if (mode == "run" || mode == "trace" || mode == "serve" || mode == "choices") {
        const Prop* p = chosenProp(arg("prop", ""));
        if (!p) { std::cerr << "no such property\n"; return 2; }
        if (mode == "serve") return doServe(*p, args.count("describe"));
        if (mode == "choices") { // the choices of one generated case, in hex
            std::vector<uint8_t> rec(CHOICE_CAP);
            Slot* slot = shmSlots(1);
            fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) {
                silence();
                armTimer(caseSeconds);
                Source src(caseSeed(std::stoull(arg("seed", "1")), p->id, std::stoull(arg("from", "0"))), slot->rec, &slot->recLen);
                Ctx c(src, false);
                std::string msg;
                runCase(*p, c, msg);
                _exit(0);
            }
            waitpid(pid, nullptr, 0);
            std::cout << hexOf(slot->rec, std::min<size_t>(slot->recLen, CHOICE_CAP)) << "\n";
            return 0;
        }
        return mode == "run" ? doRun(*p) : doTrace(*p);
    }
    if (mode == "corpus" && !pos.empty()) { // one file of choices per generated case, as seeds for libFuzzer
        const Prop* p = chosenProp(arg("prop", ""));
        if (!p) return 2;
        uint64_t n = std::stoull(arg("cases", "300")), seed = std::stoull(arg("seed", "1"));
        Slot* slot = shmSlots(1);
        for (uint64_t i = 0; i < n; i++) {
            fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) {
                silence();
                armTimer(caseSeconds);
                Source src(caseSeed(seed, p->id, i), slot->rec, &slot->recLen);
                Ctx c(src, false);
                std::string msg;
                runCase(*p, c, msg);
                _exit(0);
            }
            waitpid(pid, nullptr, 0);
            std::ofstream f(pos[0] + "/" + std::to_string(i), std::ios::binary);
            f.write(reinterpret_cast<const char*>(slot->rec), std::min<size_t>(slot->recLen, CHOICE_CAP));
        }
        return 0;
    }
    if (mode == "replay" && !pos.empty()) { // exit 1 if the property fails on the recorded case
        std::string id; std::vector<uint8_t> ch; std::vector<uint64_t> seq; uint64_t seed = 0;
        if (!readReplay(pos[0], id, ch, seed, seq)) { std::cerr << "cannot read " << pos[0] << "\n"; return 2; }
        if (args.count("prop")) id = args["prop"];
        const Prop* p = chosenProp(id);
        if (!p) { std::cerr << "no such property\n"; return 2; }
        Slot* slot = shmSlots(1);
        std::string r = seq.empty() ? tryHard(*p, ch, slot, args.count("quiet"), 600, 1.5) : trySequence(*p, seed, seq, slot, now() + 120, args.count("quiet"));
        std::cout << "case: " << (seq.empty() ? describe(*p, ch) : "a sequence of " + std::to_string(seq.size()) + " generated cases") << "\n" << (r.empty() ? "held" : r) << "\n";
        return r.empty() ? 0 : 1;
    }
    if (mode == "conclude" && !pos.empty()) { // raw libFuzzer input -> confirmed, shrunk replay file
        const Prop* p = chosenProp(arg("prop", ""));
        std::ifstream f(pos[0], std::ios::binary);
        std::vector<uint8_t> ch((std::istreambuf_iterator<char>(f)), {});
        std::string msg, path;
        if (!p || !conclude(*p, ch, "libFuzzer", msg, path)) { std::cout << "not confirmed\n"; return 0; }
        std::cout << "replay=" << path << "\n" << msg << "\n";
        return 1;
    }
    std::cerr << "usage: harness list | run|trace --prop ID ... | replay FILE | conclude FILE --prop ID\n";
    return 2;
}

int main(int argc, char** argv) { return harnessMain(argc, argv); }

static std::vector<Prop>* registry = nullptr;
const std::vector<Prop>& allProps() { if (!registry) registry = new std::vector<Prop>; return *registry; }
Register::Register(const char* id, const char* rule, void (*fn)(Ctx&)) { allProps(); registry->push_back({id, rule, fn}); }
const Prop* findProp(const std::string& id) {
    for (auto& p : allProps()) if (id == p.id) return &p;
    return nullptr;
}
