#include "sim.h"
#include <cstdarg>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <sys/syscall.h>
#include <time.h>

namespace sim {

const char* const fault_names[F_KINDS] = {"alloc", "default", "copy", "move", "cassign", "massign", "callback"};

Recorder    rec;
FaultEngine faults;
int         lib_depth = 0;
AllocStats  alloc_stats = {0, 0, 0, 0};
const char* alloc_prop = "";
const char* elem_prop  = "";

static std::string vformat(const char* fmt, va_list ap) {
    char buf[1024];
    vsnprintf(buf, sizeof buf, fmt, ap);
    return buf;
}

void Recorder::log_text(const char* fmt, ...) {
    if (!verbose) return;
    NoLib nl;
    va_list ap; va_start(ap, fmt); std::string s = vformat(fmt, ap); va_end(ap);
    printf("  | %s\n", s.c_str());
    fflush(stdout);
}

void Recorder::violation(const char* prop, const char* cls, const char* fmt, ...) {
    NoLib nl;
    if (!focus.empty() && focus != prop) { ++other_violations; return; }
    if (violated) return;
    violated = true;
    va_list ap; va_start(ap, fmt); v_msg = vformat(fmt, ap); va_end(ap);
    v_prop = prop; v_class = cls; v_step = cur_step;
}

// ---------------------------------------------------------------- tables (malloc-backed; no operator new)

struct Slot { uintptr_t key; u64 val; };
struct Table {
    Slot*  s = nullptr; size_t cap = 0, used = 0, live = 0;
    static const uintptr_t EMPTY = 0, TOMB = 1;
    void init(size_t c) { cap = c; s = (Slot*)calloc(c, sizeof(Slot)); used = live = 0; }
    void clear() {
        if (!s) { init(1 << 12); return; }
        if (cap > (1u << 14)) { ::free(s); init(1 << 12); return; }
        memset(s, 0, cap * sizeof(Slot)); used = live = 0;
    }
    static size_t h(uintptr_t k) { return (size_t)mix64(k); }
    void grow() { Table n; n.init(live * 4 < (1 << 12) ? (1 << 12) : cap * 2); for (size_t i = 0; i < cap; ++i) if (s[i].key > TOMB) n.put(s[i].key, s[i].val); ::free(s); *this = n; }
    void put(uintptr_t k, u64 v) {
        if (!s) init(1 << 12);
        if ((used + 1) * 2 > cap) grow();
        size_t i = h(k) & (cap - 1);
        while (s[i].key != EMPTY) { if (s[i].key == k) { s[i].val = v; return; } i = (i + 1) & (cap - 1); }
        s[i].key = k; s[i].val = v; ++used; ++live;
    }
    Slot* find(uintptr_t k) {
        if (!s) return nullptr;
        size_t i = h(k) & (cap - 1);
        while (s[i].key != EMPTY) { if (s[i].key == k) return &s[i]; i = (i + 1) & (cap - 1); }
        return nullptr;
    }
    bool erase(uintptr_t k) { Slot* p = find(k); if (!p) return false; p->key = TOMB; --live; return true; }
};

static Table t_alloc, t_reg;

void alloc_reset() { t_alloc.clear(); alloc_stats = {0, 0, 0, 0}; }

void alloc_check_leaks() {
    if (t_alloc.live) {
        size_t bytes = 0;
        for (size_t i = 0; i < t_alloc.cap; ++i) if (t_alloc.s[i].key > Table::TOMB) bytes += t_alloc.s[i].val >> 8;
        rec.violation(alloc_prop, "leak", "%zu block(s), %zu bytes, never released", t_alloc.live, bytes);
    }
}

bool alloc_find(const void* p, const void** base, size_t* size) {
    uintptr_t a = (uintptr_t)p;
    for (size_t i = 0; i < t_alloc.cap; ++i)
        if (t_alloc.s[i].key > Table::TOMB) {
            uintptr_t b = t_alloc.s[i].key; size_t n = t_alloc.s[i].val >> 8;
            if (a >= b && a < b + n) { if (base) *base = (void*)b; if (size) *size = n; return true; }
        }
    return false;
}

namespace reg {
    void reset() { t_reg.clear(); }
    void born(const void* p, int size) {
        if (t_reg.find((uintptr_t)p)) rec.violation(elem_prop, "overwritten-element", "an element was constructed on top of a live one");
        t_reg.put((uintptr_t)p, (u64)size);
    }
    bool dead(const void* p) { return t_reg.erase((uintptr_t)p); }
    bool live(const void* p) { return t_reg.find((uintptr_t)p) != nullptr; }
    u64  count() { return t_reg.live; }
}

static void* do_alloc(size_t n, int kind, size_t align) {
    if (lib_depth > 0) {
        ++alloc_stats.allocs;
        if (faults.hit(F_ALLOC)) throw std::bad_alloc();
    }
    void* p = align ? aligned_alloc(align, (std::max<size_t>(n, 1) + align - 1) / align * align) : malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (lib_depth > 0) t_alloc.put((uintptr_t)p, ((u64)n << 8) | (u64)kind);
    return p;
}

static void do_free(void* p, int kind) noexcept {
    if (!p) return;
    Slot* s = t_alloc.find((uintptr_t)p);
    if (s) {
        int k = (int)(s->val & 0xff);
        if (k != kind) rec.violation(alloc_prop, "mismatched-free", "memory from %s released with %s", k ? "new[]" : "new", kind ? "delete[]" : "delete");
        ++alloc_stats.frees;
        t_alloc.erase((uintptr_t)p);
    }
    free(p);
}

} // namespace sim

#ifndef SIM_NO_ALLOC_SEAM
void* operator new(size_t n)   { return sim::do_alloc(n, 0, 0); }
void* operator new[](size_t n) { return sim::do_alloc(n, 1, 0); }
void* operator new(size_t n, const std::nothrow_t&) noexcept   { try { return sim::do_alloc(n, 0, 0); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return sim::do_alloc(n, 1, 0); } catch (...) { return nullptr; } }
void* operator new(size_t n, std::align_val_t a)   { return sim::do_alloc(n, 0, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return sim::do_alloc(n, 1, (size_t)a); }
void operator delete(void* p) noexcept   { sim::do_free(p, 0); }
void operator delete[](void* p) noexcept { sim::do_free(p, 1); }
void operator delete(void* p, size_t) noexcept   { sim::do_free(p, 0); }
void operator delete[](void* p, size_t) noexcept { sim::do_free(p, 1); }
void operator delete(void* p, const std::nothrow_t&) noexcept   { sim::do_free(p, 0); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::do_free(p, 1); }
void operator delete(void* p, std::align_val_t) noexcept   { sim::do_free(p, 0); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::do_free(p, 1); }
void operator delete(void* p, size_t, std::align_val_t) noexcept   { sim::do_free(p, 0); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim::do_free(p, 1); }
#endif

// ---------------------------------------------------------------- trace text

namespace sim {

static void print_trace(FILE* o, Scenario* sc, const Trace& t) {
    auto ops = sc->ops();
    fprintf(o, "scenario %s\nfocus %s\nseed %llu\n", sc->name(), t.focus.empty() ? "-" : t.focus.c_str(), (unsigned long long)t.seed);
    for (auto& c : t.cfg) fprintf(o, "cfg %s %lld\n", c.first.c_str(), (long long)c.second);
    for (auto& s : t.steps) {
        fprintf(o, "step %s", s.op < (int)ops.size() ? ops[s.op] : "?");
        for (i64 a : s.a) fprintf(o, " %lld", (long long)a);
        for (auto& f : s.f) fprintf(o, " !%s:%d", fault_names[f.kind], f.nth);
        fprintf(o, "\n");
    }
}

static bool read_trace(const char* path, Scenario* sc, Trace& t) {
    FILE* f = fopen(path, "r");
    if (!f) return false;
    auto ops = sc->ops();
    std::string buf; char tmp[65536]; size_t n;
    while ((n = fread(tmp, 1, sizeof tmp, f)) > 0) buf.append(tmp, n);
    fclose(f);
    size_t pos = 0;
    while (pos < buf.size()) {
        size_t e = buf.find('\n', pos); if (e == std::string::npos) e = buf.size();
        std::string line = buf.substr(pos, e - pos); pos = e + 1;
        std::vector<std::string> w; size_t i = 0;
        while (i < line.size()) { while (i < line.size() && line[i] == ' ') ++i; size_t j = i; while (j < line.size() && line[j] != ' ') ++j; if (j > i) w.push_back(line.substr(i, j - i)); i = j; }
        if (w.empty() || w[0][0] == '#') continue;
        if (w[0] == "scenario") { if (w[1] != sc->name()) { fprintf(stderr, "trace is for scenario %s\n", w[1].c_str()); return false; } t.scenario = w[1]; }
        else if (w[0] == "focus") t.focus = w[1] == "-" ? "" : w[1];
        else if (w[0] == "seed") t.seed = strtoull(w[1].c_str(), nullptr, 10);
        else if (w[0] == "cfg") t.cfg[w[1]] = strtoll(w[2].c_str(), nullptr, 10);
        else if (w[0] == "step") {
            Step s; s.op = -1;
            for (size_t k = 0; k < ops.size(); ++k) if (w[1] == ops[k]) s.op = (int)k;
            if (s.op < 0) { fprintf(stderr, "unknown op %s\n", w[1].c_str()); return false; }
            for (size_t k = 2; k < w.size(); ++k) {
                if (w[k][0] == '!') {
                    size_t c = w[k].find(':'); std::string nm = w[k].substr(1, c - 1);
                    Fault fl{-1, atoi(w[k].c_str() + c + 1)};
                    for (int q = 0; q < F_KINDS; ++q) if (nm == fault_names[q]) fl.kind = q;
                    if (fl.kind >= 0) s.f.push_back(fl);
                } else s.a.push_back(strtoll(w[k].c_str(), nullptr, 10));
            }
            t.steps.push_back(std::move(s));
        }
    }
    return true;
}

// wall clock of the harness; bypasses any simulated clock
static double mono_now() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec; }

static const unsigned CPU_LIMIT_S = 20;
static void on_timer(int) {
    static const char m[] = "SIM-HANG: run exceeded its CPU budget\n";
    ssize_t r = write(2, m, sizeof m - 1); (void)r;
    _exit(78);
}
static void arm_timer() {
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = CPU_LIMIT_S;
    setitimer(ITIMER_PROF, &it, nullptr);
}

// ---- isolated runs: a child process executes the trace and reports through shared memory

struct Shared {
    u64 done, hash, events, other, fired[F_KINDS], armed[F_KINDS];
    int violated, v_step;
    char prop[32], cls[64], msg[1024];
    u64 nstates, states[16384];
    size_t ncount; struct { char name[56]; u64 n; } count[200];
};
static Shared* shm = nullptr;

void finish_isolated() {
    shm->hash = rec.hash; shm->events = rec.sim_events; shm->other = rec.other_violations;
    for (int k = 0; k < F_KINDS; ++k) { shm->fired[k] = faults.total_fired[k]; shm->armed[k] = faults.total_armed[k]; }
    shm->violated = rec.violated; shm->v_step = rec.v_step;
    snprintf(shm->prop, sizeof shm->prop, "%s", rec.v_prop.c_str());
    snprintf(shm->cls, sizeof shm->cls, "%s", rec.v_class.c_str());
    snprintf(shm->msg, sizeof shm->msg, "%s", rec.v_msg.c_str());
    shm->nstates = 0; for (u64 v : rec.states) if (shm->nstates < 16384) shm->states[shm->nstates++] = v;
    shm->ncount = 0; for (auto& c : rec.counters) if (shm->ncount < 200) { snprintf(shm->count[shm->ncount].name, 56, "%s", c.first.c_str()); shm->count[shm->ncount++].n = c.second; }
    shm->done = 1;
    fflush(stdout);
    _exit(0);
}

static void run_isolated(Scenario* sc, const Trace& t) {
    if (!shm) shm = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    shm->done = 0; shm->nstates = 0; shm->ncount = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(97); }
    if (pid == 0) {
        struct itimerval z; memset(&z, 0, sizeof z); z.it_value.tv_sec = CPU_LIMIT_S; setitimer(ITIMER_PROF, &z, nullptr);
        alarm(60);
        rec.states.clear(); rec.counters.clear(); rec.sim_events = 0; rec.other_violations = 0;
        for (int k = 0; k < F_KINDS; ++k) { faults.total_fired[k] = faults.total_armed[k] = 0; }
        try { sc->execute(t); } catch (const Abort&) {}
        finish_isolated();
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    if (!shm->done) {
        rec.hash = 0;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 78) rec.violation(sc->crash_prop(t), "hang", "the run did not finish within its CPU budget");
        else if (WIFSIGNALED(st)) rec.violation(sc->crash_prop(t), "crash", "the process was ended by signal %d", WTERMSIG(st));
        else { fprintf(stderr, "isolated run ended with status %d\n", st); _exit(97); }
        return;
    }
    rec.hash = shm->hash; rec.sim_events += shm->events; rec.other_violations += shm->other;
    for (int k = 0; k < F_KINDS; ++k) { faults.total_fired[k] += shm->fired[k]; faults.total_armed[k] += shm->armed[k]; }
    for (u64 i = 0; i < shm->nstates; ++i) rec.state(shm->states[i]);
    for (size_t i = 0; i < shm->ncount; ++i) rec.counters[shm->count[i].name] += shm->count[i].n;
    if (shm->violated) { rec.violated = true; rec.v_prop = shm->prop; rec.v_class = shm->cls; rec.v_msg = shm->msg; rec.v_step = shm->v_step; }
}

// an unexpected C++ exception leaving library code is handled by the scenario; anything that
// still escapes is a harness error
static void run_trace(Scenario* sc, const Trace& t) {
    rec.begin(t.focus);
    faults.reset();
    lib_depth = 0;
    alloc_reset();
    reg::reset();
    if (sc->isolated()) { run_isolated(sc, t); return; }
    arm_timer();
    try { sc->execute(t); }
    catch (const Abort&) {}
    lib_depth = 0;
    faults.reset();
}

static void json_str(FILE* o, const std::string& s) {
    fputc('"', o);
    for (unsigned char c : s) { if (c == '"' || c == '\\') fprintf(o, "\\%c", c); else if (c < 32) fprintf(o, "\\u%04x", c); else fputc(c, o); }
    fputc('"', o);
}

} // namespace sim

using namespace sim;

int main(int argc, char** argv) {
    // fixed address layout: a run must not depend on where the kernel maps things
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR_TRIED")) {
        personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
        setenv("SIM_ASLR_TRIED", "1", 1);
        execv("/proc/self/exe", argv);
    }
    std::string mode = argc > 1 ? argv[1] : "";
    std::map<std::string, std::string> opt;
    for (int i = 2; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
    signal(SIGPROF, on_timer);
    Scenario* sc = make_scenario();
    int tier = opt["--tier"] == "thorough" ? 1 : 0;
    std::string focus = opt["--focus"];
    u64 base = strtoull(opt["--base"].c_str(), nullptr, 10);
    auto run_seed = [&](u64 index) { return mix64(base * 0x100000001b3ull + mix64(index)); };

    if (mode == "gen") {
        u64 idx = strtoull(opt["--index"].c_str(), nullptr, 10);
        Trace t; t.scenario = sc->name(); t.focus = focus; t.seed = run_seed(idx);
        Rng r(t.seed); sc->generate(r, t, tier);
        print_trace(stdout, sc, t);
        return 0;
    }
    if (mode == "replay") {
        Trace t;
        if (!read_trace(opt["--trace"].c_str(), sc, t)) return 3;
        if (!focus.empty()) t.focus = focus;
        rec.verbose = opt["--verbose"] == "1";
        run_trace(sc, t);
        printf("HASH %016llx\n", (unsigned long long)rec.hash);
        if (rec.violated) { printf("VIOLATED prop=%s class=%s step=%d msg=%s\n", rec.v_prop.c_str(), rec.v_class.c_str(), rec.v_step, rec.v_msg.c_str()); return 1; }
        printf("OK\n");
        return 0;
    }
    if (mode == "batch") {
        u64 first = strtoull(opt["--first"].c_str(), nullptr, 10);
        u64 count = strtoull(opt["--count"].c_str(), nullptr, 10);
        double max_s = opt.count("--max-seconds") ? atof(opt["--max-seconds"].c_str()) : 1e18;
        std::string out = opt["--out"];
        // progress cell: survives a crash of this process
        int fd = open((out + ".progress").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, 16)) return 3;
        volatile u64* cell = (volatile u64*)mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        FILE* hf = fopen((out + ".hashes").c_str(), "wb");
        struct V { u64 idx, seed; std::string p, c, m; int st; u64 hash; };
        std::vector<V> vs;
        u64 done = 0, steps = 0, maxsteps = 0, faulty = 0, fired_runs = 0;
        double t0 = mono_now();
        for (u64 i = first; i < first + count; ++i) {
            cell[0] = i; cell[1] = 1;
            Trace t; t.scenario = sc->name(); t.focus = focus; t.seed = run_seed(i);
            Rng r(t.seed); sc->generate(r, t, tier);
            bool hasf = false; for (auto& s : t.steps) if (!s.f.empty()) hasf = true;
            u64 before = 0; for (int k = 0; k < F_KINDS; ++k) before += faults.total_fired[k];
            run_trace(sc, t);
            u64 after = 0; for (int k = 0; k < F_KINDS; ++k) after += faults.total_fired[k];
            faulty += hasf; fired_runs += after > before;
            ++done; steps += t.steps.size(); maxsteps = std::max<u64>(maxsteps, t.steps.size());
            u64 h = t.steps.size() < 2 ? 0 : rec.hash; fwrite(&h, 8, 1, hf);
            if (rec.violated && vs.size() < 20) vs.push_back({i, t.seed, rec.v_prop, rec.v_class, rec.v_msg, rec.v_step, h});
            if (vs.size() >= 20) break;
            if (mono_now() - t0 > max_s) break;
        }
        struct itimerval it; memset(&it, 0, sizeof it); setitimer(ITIMER_PROF, &it, nullptr);
        fclose(hf);
        cell[1] = 2;
        FILE* sf = fopen((out + ".states").c_str(), "wb");
        for (u64 s : rec.states) fwrite(&s, 8, 1, sf);
        fclose(sf);
        FILE* o = fopen((out + ".json").c_str(), "w");
        fprintf(o, "{\"runs\":%llu,\"steps\":%llu,\"max_steps\":%llu,\"faulty_runs\":%llu,\"fired_runs\":%llu,\"events\":%llu,\"other_violations\":%llu,\"counters\":{",
                (unsigned long long)done, (unsigned long long)steps, (unsigned long long)maxsteps, (unsigned long long)faulty, (unsigned long long)fired_runs,
                (unsigned long long)rec.sim_events, (unsigned long long)rec.other_violations);
        bool c1 = false;
        for (auto& c : rec.counters) { fprintf(o, "%s", c1 ? "," : ""); json_str(o, c.first); fprintf(o, ":%llu", (unsigned long long)c.second); c1 = true; }
        fprintf(o, "},\"faults_fired\":{");
        for (int k = 0; k < F_KINDS; ++k) fprintf(o, "%s\"%s\":%llu", k ? "," : "", fault_names[k], (unsigned long long)faults.total_fired[k]);
        fprintf(o, "},\"faults_armed\":{");
        for (int k = 0; k < F_KINDS; ++k) fprintf(o, "%s\"%s\":%llu", k ? "," : "", fault_names[k], (unsigned long long)faults.total_armed[k]);
        fprintf(o, "},\"violations\":[");
        for (size_t i = 0; i < vs.size(); ++i) {
            fprintf(o, "%s{\"index\":%llu,\"seed\":\"%llu\",\"step\":%d,\"hash\":\"%016llx\",\"prop\":", i ? "," : "", (unsigned long long)vs[i].idx, (unsigned long long)vs[i].seed, vs[i].st, (unsigned long long)vs[i].hash);
            json_str(o, vs[i].p); fprintf(o, ",\"class\":"); json_str(o, vs[i].c); fprintf(o, ",\"msg\":"); json_str(o, vs[i].m); fprintf(o, "}");
        }
        fprintf(o, "]}\n");
        fclose(o);
        return 0;
    }
    fprintf(stderr, "usage: %s gen|replay|batch ...\n", argv[0]);
    return 3;
}
