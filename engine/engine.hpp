// Property-based testing engine used by every check in /verif.
//
// * A property ("facet") is a function void(Src&).  All randomness comes from
//   Src::draw(), i.e. a case is fully described by its *choice tape*.
// * Random mode draws the tape from a PRNG seeded by (VERIF_SEED, salt, facet,
//   case index); replay mode feeds a stored tape; fuzz mode decodes libFuzzer
//   bytes into the same choices.
// * Cases run in forked workers, so a crash, a failed assert() of the library,
//   a sanitizer report, or a runaway loop (CPU-time limit) is a failure of the
//   case, not of the machinery.
// * A failing case is confirmed 3x in fresh processes, its tape is shrunk, and
//   the minimal tape is written as the replay file.
#pragma once

#ifdef NDEBUG
#define ENG_NDEBUG_WAS 1
#endif

#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>

#include <algorithm>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace eng {

// ---------------------------------------------------------------- randomness
struct Rng { // splitmix64
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t bound) // bound 0: full range
    {
        return bound ? next() % bound : next();
    }
};

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) {
        h ^= c[i];
        h *= 1099511628211ULL;
    }
    return h;
}

// ------------------------------------------------------------------ failures
struct Violation {
    std::string msg;
};

struct Discard {}; // generator produced nothing usable (counted, never a pass)

[[noreturn]] inline void fail(std::string const& m) { throw Violation{m}; }

template <typename A, typename B>
[[noreturn]] void fail_eq(const char* what, A const& exp, B const& got, std::string const& ctx)
{
    std::ostringstream os;
    os << what << ": expected " << exp << ", got " << got << "  [" << ctx << "]";
    throw Violation{os.str()};
}

// EXP is the oracle's value, GOT the library's.  CTX is evaluated lazily.
#define CK_EQ(WHAT, EXP, GOT, CTX)                                        \
    do {                                                                  \
        auto ck_e_ = (EXP);                                               \
        auto ck_g_ = (GOT);                                               \
        if (!(ck_e_ == ck_g_)) {                                          \
            std::ostringstream ck_o_;                                     \
            ck_o_ << CTX;                                                 \
            ::eng::fail_eq(WHAT, ck_e_, ck_g_, ck_o_.str());              \
        }                                                                 \
    } while (0)

#define CK(COND, CTX)                                                     \
    do {                                                                  \
        if (!(COND)) {                                                    \
            std::ostringstream ck_o_;                                     \
            ck_o_ << #COND << "  [" << CTX << "]";                        \
            ::eng::fail(ck_o_.str());                                     \
        }                                                                 \
    } while (0)

// ---------------------------------------------------------------- the source
const size_t MAX_TAPE = 1 << 20;

struct Shm { // one per child, MAP_SHARED
    volatile uint64_t cur;      // case index being run
    volatile uint64_t executed; // cases run to completion
    volatile uint64_t discarded;
    volatile uint64_t failed;   // 1: Violation thrown
    volatile uint64_t finished; // worker reached its normal end
    volatile uint64_t timecap;  // stopped by the wall-clock cap
    volatile uint64_t tape_len;
    volatile uint64_t hash, nontriv, was_discarded; // of the last case (fork_each)
    char msg[8192];
    uint64_t tape[MAX_TAPE];
};

class Src {
public:
    enum Mode { GEN, TAPE, BYTES };

    Src(Mode m, Shm* shm) : m_mode(m), m_shm(shm), m_rng(0) {}

    Mode m_mode;
    Shm* m_shm;
    Rng m_rng;
    std::vector<uint64_t> m_tape; // TAPE mode input
    const uint8_t* m_bytes = 0;   // BYTES mode input
    size_t m_nbytes = 0;
    size_t m_pos = 0;
    uint64_t m_hash = 1469598103934665603ULL;
    uint64_t m_count = 0;
    int scale = 1;

    bool m_nontrivial = false;
    bool m_describe = false;
    std::ostringstream m_desc;
    std::map<std::string, uint64_t>* m_labels = 0;

    // Uniform in [0, bound); bound 0 means the full 64-bit range. 0 is simplest.
    uint64_t draw(uint64_t bound)
    {
        uint64_t v = 0;
        switch (m_mode) {
        case GEN:
            v = m_rng.below(bound);
            break;
        case TAPE:
            v = m_pos < m_tape.size() ? m_tape[m_pos] : 0;
            ++m_pos;
            if (bound && v >= bound) v %= bound;
            break;
        case BYTES: {
            unsigned n = 8;
            if (bound) {
                n = 1;
                while (n < 8 && ((bound - 1) >> (8 * n))) ++n;
            }
            for (unsigned i = 0; i < n && m_pos < m_nbytes; ++i) v |= uint64_t(m_bytes[m_pos++]) << (8 * i);
            if (bound) v %= bound;
            break;
        }
        }
        if (m_shm) {
            if (m_count < MAX_TAPE) m_shm->tape[m_count] = v;
            m_shm->tape_len = std::min<uint64_t>(m_count + 1, MAX_TAPE);
        }
        ++m_count;
        m_hash = (m_hash ^ v) * 1099511628211ULL;
        m_hash ^= m_hash >> 29;
        return v;
    }

    // inclusive; shrinks towards lo
    uint64_t range(uint64_t lo, uint64_t hi)
    {
        if (lo == 0 && hi == UINT64_MAX) return draw(0);
        return lo + draw(hi - lo + 1);
    }
    // true with probability num/den; shrinks to false
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
    // uniformly random bit length, then uniform value of that length, clamped
    uint64_t logu(uint64_t max)
    {
        unsigned bits = 0;
        while (bits < 64 && (max >> bits)) ++bits;
        unsigned b = unsigned(draw(bits + 1));
        if (!b) return 0;
        uint64_t lo = uint64_t(1) << (b - 1);
        uint64_t v = lo + (lo > 1 ? draw(lo) : 0);
        return std::min(v, max);
    }
    uint64_t seed() { return draw(0); }

    template <typename T>
    T const& pick(std::vector<T> const& v)
    {
        return v[draw(v.size())];
    }

    void nontrivial(bool b = true) { m_nontrivial = m_nontrivial || b; }
    void label(std::string const& l)
    {
        if (m_labels) (*m_labels)[l] += 1;
    }
    bool describing() const { return m_describe; }
    std::ostream& desc() { return m_desc; }
};

#define DESC(S, X)                                                        \
    do {                                                                  \
        if ((S).describing()) (S).desc() << X;                            \
    } while (0)

// ------------------------------------------------------------------ registry
typedef void (*facet_fn)(Src&);
struct Facet {
    const char* name;
    facet_fn fn;
    const char* rule; // what a case is, and what makes it non-trivial
};
inline std::vector<Facet>& facets()
{
    static std::vector<Facet> f;
    return f;
}
struct Reg {
    Reg(const char* n, facet_fn f, const char* r) { facets().push_back(Facet{n, f, r}); }
};
#define FACET(NAME, RULE)                                                 \
    static void facet_##NAME(::eng::Src& s);                              \
    static ::eng::Reg reg_##NAME(#NAME, &facet_##NAME, RULE);             \
    static void facet_##NAME(::eng::Src& s)

inline Facet const* find_facet(std::string const& n)
{
    for (size_t i = 0; i < facets().size(); ++i)
        if (n == facets()[i].name) return &facets()[i];
    return 0;
}

// A scratch directory private to the run; set by the driver.
inline std::string& scratch_dir()
{
    static std::string d = "/tmp";
    return d;
}
inline std::string scratch_file(const char* tag)
{
    std::ostringstream os;
    os << scratch_dir() << "/" << tag << "." << getpid();
    return os.str();
}

struct Opt {
    std::string facet, stats, replay_out, replay_in, bytes_in, salt;
    uint64_t seed = 1, cases = 1000;
    unsigned workers = 8;
    double max_seconds = 60;
    unsigned case_cpu = 60;
    uint64_t mem_mb = 3072;
    double shrink_seconds = 20;
    int scale = 1;
    bool fork_each = false; // a fresh process per case
};

inline double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return double(ts.tv_sec) + 1e-9 * double(ts.tv_nsec);
}

inline Shm* new_shm()
{
    void* p = mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        _exit(2);
    }
    return (Shm*)p;
}

inline void arm_cpu(unsigned secs)
{
    alarm(secs * 3); // wall clock, for deadlocks
    struct itimerval it;
    memset(&it, 0, sizeof(it));
    it.it_value.tv_sec = secs;
    setitimer(ITIMER_PROF, &it, 0);
}

inline void child_limits(Opt const& o)
{
    signal(SIGPROF, SIG_DFL);
    signal(SIGALRM, SIG_DFL);
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    if (o.mem_mb) {
        rl.rlim_cur = rl.rlim_max = o.mem_mb << 20;
        setrlimit(RLIMIT_AS, &rl);
    }
}

inline void set_msg(Shm* shm, std::string const& m)
{
    strncpy(shm->msg, m.c_str(), sizeof(shm->msg) - 1);
}

// Runs one case in this process. true: passed.
inline bool run_one(Facet const& f, Src& src, Shm* shm, bool* discarded = 0)
{
    try {
        f.fn(src);
        return true;
    } catch (Violation const& v) {
        set_msg(shm, v.msg);
    } catch (Discard const&) {
        if (discarded) *discarded = true;
        return true;
    } catch (std::exception const& e) {
        set_msg(shm, std::string("unexpected exception: ") + e.what());
    } catch (...) {
        set_msg(shm, "unexpected exception of unknown type");
    }
    return false;
}

inline uint64_t case_seed(Opt const& o, std::string const& facet, uint64_t idx)
{
    uint64_t h = fnv(facet.data(), facet.size());
    h = fnv(o.salt.data(), o.salt.size(), h);
    h = fnv(&o.seed, sizeof(o.seed), h);
    h = fnv(&idx, sizeof(idx), h);
    return Rng(h).next();
}

inline void redirect_stderr(std::string const& path)
{
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) {
        dup2(fd, 2);
        close(fd);
    }
}

inline std::string head_of(std::string const& path, size_t max)
{
    std::ifstream in(path.c_str());
    std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    if (s.size() > max) s.resize(max);
    return s;
}

struct Outcome {
    bool failed = false;
    std::string msg;
    std::vector<uint64_t> tape;
};

inline std::string describe_status(int st, std::string const& errfile)
{
    std::ostringstream os;
    if (WIFSIGNALED(st)) {
        int sg = WTERMSIG(st);
        if (sg == SIGPROF)
            os << "no result within the CPU-time limit (runaway loop)";
        else
            os << "process killed by signal " << sg << " (" << strsignal(sg) << ")";
    } else {
        os << "process exited with status " << WEXITSTATUS(st);
    }
    std::string e = head_of(errfile, 3000);
    if (!e.empty()) os << ": " << e;
    return os.str();
}

// Runs a tape (or bytes) in a fresh child.
inline Outcome run_child(Opt const& o, Facet const& f, std::vector<uint64_t> const* tape,
                         std::vector<uint8_t> const* bytes, Shm* shm)
{
    memset((void*)shm, 0, offsetof(Shm, tape));
    std::string errfile = scratch_file("stderr");
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p < 0) {
        perror("fork");
        _exit(2);
    }
    if (p == 0) {
        child_limits(o);
        redirect_stderr(errfile);
        arm_cpu(o.case_cpu);
        Src src(tape ? Src::TAPE : Src::BYTES, shm);
        src.scale = o.scale;
        if (tape)
            src.m_tape = *tape;
        else {
            src.m_bytes = bytes->data();
            src.m_nbytes = bytes->size();
        }
        bool ok = run_one(f, src, shm);
        shm->failed = !ok;
        shm->finished = 1;
        fflush(stderr);
        _exit(ok ? 0 : 1);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    Outcome out;
    if (shm->finished && WIFEXITED(st)) {
        out.failed = shm->failed != 0 || WEXITSTATUS(st) != 0;
        out.msg = shm->msg;
        if (out.failed && !shm->failed) out.msg = describe_status(st, errfile);
    } else {
        out.failed = true;
        out.msg = describe_status(st, errfile);
    }
    unlink(errfile.c_str());
    out.tape.assign((uint64_t*)shm->tape, (uint64_t*)shm->tape + shm->tape_len);
    return out;
}

// lexicographic-by-length order used by the shrinker
inline bool simpler(std::vector<uint64_t> const& a, std::vector<uint64_t> const& b)
{
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

inline Outcome shrink(Opt const& o, Facet const& f, Outcome best, Shm* shm, unsigned& attempts)
{
    double deadline = now() + o.shrink_seconds;
    attempts = 0;
    auto try_tape = [&](std::vector<uint64_t> const& t) -> bool {
        if (now() > deadline || attempts > 4000) return false;
        ++attempts;
        Outcome r = run_child(o, f, &t, 0, shm);
        if (!r.failed) return false;
        // r.tape is normalised: exactly the choices consumed
        if (simpler(r.tape, best.tape)) {
            best = r;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && now() < deadline) {
        progress = false;
        // delete chunks
        for (size_t chunk = std::max<size_t>(best.tape.size() / 2, 1); chunk >= 1; chunk /= 2) {
            size_t i = 0;
            while (i + chunk <= best.tape.size() && now() < deadline) {
                std::vector<uint64_t> t(best.tape);
                t.erase(t.begin() + ptrdiff_t(i), t.begin() + ptrdiff_t(i + chunk));
                if (try_tape(t))
                    progress = true;
                else
                    i += chunk;
            }
            if (chunk == 1) break;
        }
        // zero chunks
        for (size_t chunk = 8; chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i + chunk <= best.tape.size() && now() < deadline; i += chunk) {
                std::vector<uint64_t> t(best.tape);
                bool any = false;
                for (size_t j = i; j < i + chunk; ++j) {
                    any = any || t[j];
                    t[j] = 0;
                }
                if (any && try_tape(t)) progress = true;
            }
        }
        // minimise individual choices
        for (size_t i = 0; i < best.tape.size() && now() < deadline; ++i) {
            if (!best.tape[i]) continue;
            uint64_t lo = 0, hi = best.tape[i]; // hi fails
            {
                std::vector<uint64_t> t(best.tape);
                t[i] -= 1;
                if (try_tape(t)) progress = true;
            }
            int guard = 0;
            while (i < best.tape.size() && lo + 1 < hi && guard++ < 70 && now() < deadline) {
                uint64_t mid = lo + (hi - lo) / 2;
                std::vector<uint64_t> t(best.tape);
                if (t[i] <= mid) {
                    hi = t[i];
                    if (hi <= lo + 1) break;
                    continue;
                }
                t[i] = mid;
                if (try_tape(t)) {
                    progress = true;
                    if (i < best.tape.size()) hi = best.tape[i];
                } else {
                    lo = mid;
                }
            }
        }
    }
    return best;
}

inline std::string describe_tape(Opt const& o, Facet const& f, std::vector<uint64_t> const& tape)
{
    // in a child, because the case may crash; the text comes through a file
    std::string path = scratch_file("desc");
    pid_t p = fork();
    if (p == 0) {
        child_limits(o);
        redirect_stderr("/dev/null");
        arm_cpu(o.case_cpu < 15 ? o.case_cpu : 15);
        Src src(Src::TAPE, 0);
        src.scale = o.scale;
        src.m_tape = tape;
        src.m_describe = true;
        // flush what is known even if the case dies: unbuffered via a filebuf
        std::ofstream out(path.c_str());
        out << std::unitbuf;
        src.m_desc.std::basic_ios<char>::rdbuf(out.rdbuf());
        src.m_desc << std::unitbuf;
        try {
            f.fn(src);
        } catch (...) {
        }
        out.flush();
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    std::string d = head_of(path, 4000);
    unlink(path.c_str());
    return d;
}

inline std::string json_escape(std::string const& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = (unsigned char)s[i];
        if (c == '"' || c == '\\') {
            r += '\\';
            r += char(c);
        } else if (c == '\n') {
            r += "\\n";
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof(b), "\\u%04x", c);
            r += b;
        } else
            r += char(c);
    }
    return r;
}

inline void write_replay(Opt const& o, Facet const& f, Outcome const& r, std::string const& note)
{
    std::ofstream out(o.replay_out.c_str());
    out << "facet " << f.name << "\n";
    out << "scale " << o.scale << "\n";
    out << "note " << note << "\n";
    std::string m = r.msg;
    std::replace(m.begin(), m.end(), '\n', ' ');
    out << "message " << m << "\n";
    std::string d = describe_tape(o, f, r.tape);
    std::replace(d.begin(), d.end(), '\n', ' ');
    out << "case " << d << "\n";
    out << "tape";
    for (size_t i = 0; i < r.tape.size(); ++i) out << ' ' << r.tape[i];
    out << "\n";
}

// Runs worker w's cases in this process.  Used by workers and by the
// "sequence" replay of failures that need the history of earlier cases.
inline void worker_body(Opt const& o, Facet const& f, unsigned w, Shm* shm, std::string const& statfile,
                        double t0, uint64_t last_idx)
{
    child_limits(o);
    std::map<std::string, uint64_t> labels;
    std::vector<uint64_t> hashes;
    std::vector<std::string> samples;
    for (uint64_t idx = w; idx < o.cases && idx <= last_idx; idx += o.workers) {
        if (now() - t0 > o.max_seconds) {
            shm->timecap = 1;
            break;
        }
        shm->cur = idx;
        shm->tape_len = 0;
        Src src(Src::GEN, shm);
        src.scale = o.scale;
        src.m_rng = Rng(case_seed(o, f.name, idx));
        src.m_labels = &labels;
        src.m_describe = samples.size() < 3;
        bool disc = false, nontriv = false;
        uint64_t hash = 0;
        std::string d;
        if (o.fork_each) {
            int fd[2];
            if (pipe(fd)) _exit(2);
            pid_t p = fork();
            if (p < 0) _exit(2);
            if (p == 0) {
                close(fd[0]);
                std::map<std::string, uint64_t> mine;
                src.m_labels = &mine;
                arm_cpu(o.case_cpu);
                bool ok = run_one(f, src, shm, &disc);
                shm->was_discarded = disc;
                shm->nontriv = src.m_nontrivial;
                shm->hash = src.m_hash;
                std::string text = src.m_desc.str();
                if (text.size() > 600) text.resize(600);
                std::replace(text.begin(), text.end(), '\n', ' ');
                text = "D" + text + "\n";
                for (auto const& kv : mine) text += "L" + kv.first + "\n";
                if (write(fd[1], text.data(), text.size()) < 0) {}
                close(fd[1]);
                exit(ok ? 0 : 1); // runs the sanitizers' exit checks
            }
            close(fd[1]);
            std::string text;
            char buf[4096];
            ssize_t got;
            while ((got = read(fd[0], buf, sizeof(buf))) > 0) text.append(buf, size_t(got));
            close(fd[0]);
            int st = 0;
            while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                if (!shm->msg[0]) set_msg(shm, describe_status(st, "/dev/null"));
                shm->failed = 1;
                _exit(1);
            }
            disc = shm->was_discarded;
            nontriv = shm->nontriv;
            hash = shm->hash;
            std::istringstream is(text);
            std::string l;
            while (std::getline(is, l)) {
                if (l.size() > 1 && l[0] == 'L') labels[l.substr(1)] += 1;
                if (l.size() > 1 && l[0] == 'D') d = l.substr(1);
            }
        } else {
            arm_cpu(o.case_cpu);
            if (!run_one(f, src, shm, &disc)) {
                shm->failed = 1;
                _exit(1);
            }
            arm_cpu(0);
            nontriv = src.m_nontrivial;
            hash = src.m_hash;
            if (src.m_describe) d = src.m_desc.str();
        }
        if (disc) {
            shm->discarded = shm->discarded + 1;
        } else {
            shm->executed = shm->executed + 1;
            if (nontriv) {
                hashes.push_back(hash);
                if (samples.size() < 3) {
                    if (d.size() > 600) d.resize(600);
                    samples.push_back(d);
                }
            }
        }
    }
    if (!statfile.empty()) {
        FILE* fp = fopen(statfile.c_str(), "wb");
        if (fp) {
            uint64_t n = hashes.size();
            fwrite(&n, sizeof(n), 1, fp);
            if (n) fwrite(hashes.data(), 8, n, fp);
            n = labels.size();
            fwrite(&n, sizeof(n), 1, fp);
            for (auto const& kv : labels) {
                uint64_t l = kv.first.size();
                fwrite(&l, 8, 1, fp);
                fwrite(kv.first.data(), 1, l, fp);
                fwrite(&kv.second, 8, 1, fp);
            }
            n = samples.size();
            fwrite(&n, sizeof(n), 1, fp);
            for (auto const& x : samples) {
                uint64_t l = x.size();
                fwrite(&l, 8, 1, fp);
                fwrite(x.data(), 1, l, fp);
            }
            fclose(fp);
        }
    }
    shm->finished = 1;
    fflush(stdout);
    fflush(stderr);
    _exit(0);
}

inline bool rd(FILE* fp, void* p, size_t n) { return fread(p, 1, n, fp) == n; }

inline int run_facet(Opt const& o)
{
    Facet const* f = find_facet(o.facet);
    if (!f) {
        fprintf(stderr, "no such facet %s\n", o.facet.c_str());
        return 2;
    }
    double t0 = now();
    std::vector<Shm*> shm(o.workers);
    std::vector<pid_t> pid(o.workers);
    std::vector<int> status(o.workers, 0);
    std::vector<std::string> statf(o.workers), errf(o.workers);
    fflush(stdout);
    fflush(stderr);
    for (unsigned w = 0; w < o.workers; ++w) {
        shm[w] = new_shm();
        std::ostringstream os;
        os << scratch_dir() << "/w" << getpid() << "." << w;
        statf[w] = os.str() + ".stat";
        errf[w] = os.str() + ".err";
        pid[w] = fork();
        if (pid[w] < 0) {
            perror("fork");
            return 2;
        }
        if (pid[w] == 0) {
            redirect_stderr(errf[w]);
            worker_body(o, *f, w, shm[w], statf[w], t0, UINT64_MAX);
        }
    }
    bool any_fail = false;
    for (unsigned left = o.workers; left;) {
        int st;
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0) {
            if (errno == EINTR) continue;
            break;
        }
        for (unsigned w = 0; w < o.workers; ++w)
            if (pid[w] == p) {
                status[w] = st;
                --left;
                bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm[w]->finished);
                if (bad && !any_fail) {
                    any_fail = true;
                    // let the others stop: a failure was found
                    for (unsigned v = 0; v < o.workers; ++v)
                        if (v != w) kill(pid[v], SIGKILL);
                }
                if (bad && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) shm[w]->failed = 1;
            }
    }
    // merge statistics
    std::vector<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    uint64_t executed = 0, discarded = 0, capped = 0;
    for (unsigned w = 0; w < o.workers; ++w) {
        executed += shm[w]->executed;
        discarded += shm[w]->discarded;
        capped += shm[w]->timecap;
        FILE* fp = fopen(statf[w].c_str(), "rb");
        if (fp) {
            uint64_t n = 0, l = 0, c = 0;
            if (rd(fp, &n, 8)) {
                std::vector<uint64_t> h(n);
                if (n && rd(fp, h.data(), 8 * n)) distinct.insert(distinct.end(), h.begin(), h.end());
            }
            if (rd(fp, &n, 8))
                for (uint64_t i = 0; i < n; ++i) {
                    if (!rd(fp, &l, 8) || l > (1 << 20)) break;
                    std::string k(l, ' ');
                    if (l && !rd(fp, &k[0], l)) break;
                    if (!rd(fp, &c, 8)) break;
                    labels[k] += c;
                }
            if (rd(fp, &n, 8))
                for (uint64_t i = 0; i < n; ++i) {
                    if (!rd(fp, &l, 8) || l > (1 << 20)) break;
                    std::string k(l, ' ');
                    if (l && !rd(fp, &k[0], l)) break;
                    if (samples.size() < 3) samples.push_back(k);
                }
            fclose(fp);
        }
        unlink(statf[w].c_str());
    }

    std::sort(distinct.begin(), distinct.end());
    distinct.erase(std::unique(distinct.begin(), distinct.end()), distinct.end());

    int rc = 0;
    std::string note = "none";
    if (any_fail) {
        // pick the failing worker with the smallest case index
        unsigned best = o.workers;
        for (unsigned w = 0; w < o.workers; ++w)
            if (shm[w]->failed && (best == o.workers || shm[w]->cur < shm[best]->cur)) best = w;
        if (best < o.workers) {
            uint64_t idx = shm[best]->cur;
            std::vector<uint64_t> tape((uint64_t*)shm[best]->tape, (uint64_t*)shm[best]->tape + shm[best]->tape_len);
            std::string first_msg = shm[best]->msg;
            if (first_msg.empty()) first_msg = describe_status(status[best], errf[best]);
            Shm* s2 = new_shm();
            unsigned repro = 0;
            Outcome oc;
            unsigned tries = 0;
            // a case that ran out of CPU time is confirmed twice and not shrunk
            bool hang = WIFSIGNALED(status[best]) && (WTERMSIG(status[best]) == SIGPROF || WTERMSIG(status[best]) == SIGALRM);
            while (tries < (hang ? 2u : 10u) && !(tries == 3 && repro == 3)) {
                Outcome r = run_child(o, *f, &tape, 0, s2);
                ++tries;
                if (r.failed) {
                    ++repro;
                    oc = r;
                }
            }
            if (repro * 3 >= tries) {
                unsigned att = 0;
                Outcome small = hang ? oc : shrink(o, *f, oc, s2, att);
                std::ostringstream os;
                os << "seed=" << o.seed << " salt=" << o.salt << " case=" << idx << "; reproduced " << repro << "/" << tries << "; shrunk from "
                   << tape.size() << " to " << small.tape.size() << " choices in " << att << " attempts";
                note = os.str();
                write_replay(o, *f, small, note);
                printf("FAIL facet=%s %s\n  %s\n", f->name, note.c_str(), small.msg.c_str());
                rc = 1;
            } else {
                // Perhaps the failure needs the history of earlier cases in the
                // same process (state carried over). Re-run the worker's prefix.
                unsigned again = 0;
                for (int k = 0; k < 2; ++k) {
                    Shm* s3 = new_shm();
                    Opt o2 = o;
                    o2.max_seconds = 1e9;
                    pid_t p = fork();
                    if (p == 0) {
                        redirect_stderr(errf[best]);
                        worker_body(o2, *f, best, s3, "", now(), idx);
                    }
                    int st = 0;
                    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) ++again;
                    munmap((void*)s3, sizeof(Shm));
                }
                if (again == 2) {
                    std::ofstream out(o.replay_out.c_str());
                    out << "sequence " << f->name << "\nscale " << o.scale << "\nseed " << o.seed << "\nsalt "
                        << (o.salt.empty() ? "-" : o.salt) << "\nworkers " << o.workers << "\nworker " << best << "\ncases " << o.cases
                        << "\nlast " << idx << "\nmessage " << first_msg << "\n";
                    note = "fails only after the preceding cases of the same process; replay is the case sequence";
                    printf("FAIL facet=%s %s\n  %s\n", f->name, note.c_str(), first_msg.c_str());
                    rc = 1;
                } else {
                    note = "a failure was not reproducible and is not reported: " + first_msg;
                    printf("UNREPRODUCED facet=%s repro=%u/%u %s\n", f->name, repro, tries, first_msg.c_str());
                }
            }
        }
    }
    for (unsigned w = 0; w < o.workers; ++w) unlink(errf[w].c_str());

    if (!o.stats.empty()) {
        std::ofstream out(o.stats.c_str());
        out << "{\"facet\":\"" << f->name << "\",\"rule\":\"" << json_escape(f->rule) << "\",\"evaluations\":" << executed
            << ",\"discarded\":" << discarded << ",\"distinct_nontrivial\":" << distinct.size()
            << ",\"time_capped_workers\":" << capped << ",\"requested\":" << o.cases << ",\"violation\":" << rc
            << ",\"note\":\"" << json_escape(note) << "\",\"wall_s\":" << (now() - t0) << ",\"labels\":{";
        bool first = true;
        for (auto const& kv : labels) {
            out << (first ? "" : ",") << "\"" << json_escape(kv.first) << "\":" << kv.second;
            first = false;
        }
        out << "},\"samples\":[";
        for (size_t i = 0; i < samples.size(); ++i)
            out << (i ? "," : "") << "\"" << json_escape(samples[i]) << "\"";
        out << "]}\n";
    }
    return rc;
}

inline int run_replay(Opt o)
{
    std::ifstream in(o.replay_in.c_str());
    if (!in) {
        fprintf(stderr, "cannot read %s\n", o.replay_in.c_str());
        return 2;
    }
    std::string line, key, facet;
    std::vector<uint64_t> tape;
    bool seq = false;
    uint64_t worker = 0, last = 0;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        is >> key;
        if (key == "facet") is >> facet;
        else if (key == "sequence") { is >> facet; seq = true; }
        else if (key == "scale") is >> o.scale;
        else if (key == "seed") is >> o.seed;
        else if (key == "salt") { is >> o.salt; if (o.salt == "-") o.salt = ""; }
        else if (key == "workers") is >> o.workers;
        else if (key == "worker") is >> worker;
        else if (key == "cases") is >> o.cases;
        else if (key == "last") is >> last;
        else if (key == "tape") { uint64_t v; while (is >> v) tape.push_back(v); }
    }
    Facet const* f = find_facet(facet);
    if (!f) {
        fprintf(stderr, "no such facet %s\n", facet.c_str());
        return 2;
    }
    if (seq) {
        Shm* s3 = new_shm();
        o.max_seconds = 1e9;
        pid_t p = fork();
        if (p == 0) worker_body(o, *f, unsigned(worker), s3, "", now(), last);
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
        printf("%s sequence replay: %s\n", bad ? "FAIL" : "PASS", s3->msg);
        return bad ? 1 : 0;
    }
    Shm* shm = new_shm();
    Outcome r = run_child(o, *f, &tape, 0, shm);
    printf("%s %s: %s\n  case: %s\n", r.failed ? "FAIL" : "PASS", f->name, r.msg.c_str(),
           describe_tape(o, *f, tape).c_str());
    return r.failed ? 1 : 0;
}

// Take a libFuzzer artifact, confirm it, shrink it, write the replay file.
inline int run_bytes(Opt o)
{
    Facet const* f = find_facet(o.facet);
    if (!f) return 2;
    std::ifstream in(o.bytes_in.c_str(), std::ios::binary);
    std::vector<uint8_t> b((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    Shm* shm = new_shm();
    Outcome oc;
    unsigned repro = 0;
    for (int k = 0; k < 3; ++k) {
        Outcome r = run_child(o, *f, 0, &b, shm);
        if (r.failed) {
            ++repro;
            oc = r;
        }
    }
    if (repro < 3) {
        printf("UNREPRODUCED artifact %s\n", o.bytes_in.c_str());
        return 0;
    }
    unsigned att = 0;
    Outcome small = shrink(o, *f, oc, shm, att);
    write_replay(o, *f, small, "found by libFuzzer; reproduced 3/3");
    printf("FAIL facet=%s (libFuzzer)\n  %s\n", f->name, small.msg.c_str());
    return 1;
}

inline int engine_main(int argc, char** argv)
{
    Opt o;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nxt = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--list") {
            for (auto const& f : facets()) printf("%s\n", f.name);
            return 0;
        }
        else if (a == "--facet") o.facet = nxt();
        else if (a == "--seed") o.seed = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--salt") o.salt = nxt();
        else if (a == "--cases") o.cases = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--workers") o.workers = unsigned(atoi(nxt().c_str()));
        else if (a == "--max-seconds") o.max_seconds = atof(nxt().c_str());
        else if (a == "--case-cpu") o.case_cpu = unsigned(atoi(nxt().c_str()));
        else if (a == "--mem-mb") o.mem_mb = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--scale") o.scale = atoi(nxt().c_str());
        else if (a == "--stats") o.stats = nxt();
        else if (a == "--replay-out") o.replay_out = nxt();
        else if (a == "--replay") o.replay_in = nxt();
        else if (a == "--fork-each") o.fork_each = true;
        else if (a == "--bytes-in") o.bytes_in = nxt();
        else if (a == "--scratch") scratch_dir() = nxt();
        else if (a == "--shrink-seconds") o.shrink_seconds = atof(nxt().c_str());
        else {
            fprintf(stderr, "unknown option %s\n", a.c_str());
            return 2;
        }
    }
    if (!o.replay_in.empty()) return run_replay(o);
    if (!o.bytes_in.empty()) return run_bytes(o);
    return run_facet(o);
}

} // namespace eng

#ifdef ENGINE_LIBFUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    static eng::Facet const* f = 0;
    if (!f) {
        const char* sd = getenv("ENG_SCRATCH");
        if (sd) eng::scratch_dir() = sd;
        const char* n = getenv("ENG_FACET");
        f = eng::find_facet(n ? n : "");
        if (!f) {
            fprintf(stderr, "ENG_FACET not set\n");
            _exit(3);
        }
    }
    eng::Src src(eng::Src::BYTES, 0);
    src.m_bytes = data;
    src.m_nbytes = size;
    try {
        f->fn(src);
    } catch (eng::Discard const&) {
    } catch (eng::Violation const& v) {
        fprintf(stderr, "VIOLATED %s: %s\n", f->name, v.msg.c_str());
        abort();
    }
    return 0;
}
#else
#ifndef ENGINE_NO_MAIN
int main(int argc, char** argv) { return eng::engine_main(argc, argv); }
#endif
#endif
