// C35: failures of the file system reach the caller.
#include <signal.h>
#include <sys/resource.h>
#include <dirent.h>
#include "alloc.hpp"
#include "kinds.hpp"
#include "util.hpp"

using namespace succinct;
using namespace succinct::kinds;
using eng::Src;
using hx::Content;

namespace {
// no file of this process grows beyond `bytes` while this lives
struct FileLimit {
    struct rlimit old;
    bool on;
    explicit FileLimit(uint64_t bytes)
    {
        signal(SIGXFSZ, SIG_IGN);
        on = getrlimit(RLIMIT_FSIZE, &old) == 0;
        struct rlimit rl = old;
        rl.rlim_cur = rlim_t(bytes);
        if (!on || setrlimit(RLIMIT_FSIZE, &rl)) throw eng::Discard();
    }
    ~FileLimit() { setrlimit(RLIMIT_FSIZE, &old); }
    FileLimit(FileLimit const&) = delete;
};
unsigned open_fds()
{
    unsigned n = 0;
    DIR* d = opendir("/proc/self/fd");
    if (!d) throw eng::Discard();
    while (readdir(d)) ++n;
    closedir(d);
    return n;
}
// the same file by a longer name
std::string stretched(Src& s, std::string const& p)
{
    size_t k = s.draw(4) ? 0 : s.draw((4000 - p.size()) / 2);
    std::string mid;
    while (k--) mid += "/.";
    size_t at = p.rfind('/');
    return p.substr(0, at) + mid + p.substr(at);
}
} // namespace

FACET(freeze_fault, "a case is a structure kind and content frozen, by file name or through a stream, onto a file that may not grow beyond a drawn number of bytes, onto a path that cannot be opened, or onto a full device; non-trivial if the fault hits")
{
    unsigned kind = unsigned(s.draw(hx::K_COUNT));
    Content c = hx::make_content(s, kind, s.draw(10) ? 3000 : 200000);
    DESC(s, hx::show_content(c) << "; ");
    s.label(hx::kind_name(kind));
    unsigned fault = unsigned(s.draw(8)); // 0: unopenable, 1: full device, else: limit
    bool by_name = s.draw(3) != 0;
    uint64_t seed = s.seed();
    with_kind(kind, [&](auto k) {
        typedef decltype(k) K;
        typename K::T o;
        Rng r(s.seed());
        K::build(c, o, r);
        Answers exp = ask<K>(o, c, seed, 40);
        std::string img = frozen(o);
        tmp_path p("fault");
        std::string path = p.p;
        uint64_t limit = 1 << 30;
        bool hits = true;
        if (fault == 0) {
            path += "/nowhere/file";
            DESC(s, "unopenable path");
        } else if (fault == 1) {
            path = "/dev/full";
            if (access(path.c_str(), W_OK)) throw eng::Discard();
            DESC(s, "full device");
        } else {
            switch (s.draw(5)) {
            case 0: limit = s.draw(std::min<uint64_t>(img.size(), 64) + 1); break;
            case 1: limit = img.size() - s.draw(std::min<uint64_t>(img.size(), 64)); break; // near the end
            case 2: limit = img.size() + s.draw(3); break;
            default: limit = s.draw(img.size() + 1);
            }
            hits = limit < img.size();
            path = stretched(s, path);
            DESC(s, "limit " << limit << " of " << img.size() << " bytes");
        }
        s.nontrivial(hits);
        bool threw = false, good = false;
        size_t ret = 0;
        {
            FileLimit fl(limit);
            try {
                if (by_name) {
                    ret = mapper::freeze(o, path.c_str());
                    good = true;
                } else {
                    std::ofstream f(path.c_str(), std::ios::binary);
                    ret = mapper::freeze(o, f);
                    f.close();
                    good = f.good();
                }
            } catch (std::exception const&) {
                threw = true;
            }
        }
        std::string how = by_name ? "freeze to a file name" : "freeze to a stream";
        if (hits) {
            CK(threw || !good, how << " reported success (" << ret << " bytes) though the file could not be written, image of " << img.size() << " bytes, limit " << limit);
        } else {
            CK(!threw && good, how << " failed on a writable file");
            CK_EQ("freeze() return value", img.size(), ret, how);
            CK(slurp(p.p) == img, how << ": wrong bytes in the file");
        }
        hx::same_answers("the structure after a freeze that met a fault", exp, ask<K>(o, c, seed, 40), c);
        CK(frozen(o) == img, "the structure freezes differently after a fault");
    });
}

FACET(auto_file, "a case is a file of drawn bytes opened through auto_file or mmap_lines and read, written or misused, or a path that cannot be opened, possibly left by an exception; non-trivial always")
{
    s.nontrivial();
    unsigned what = unsigned(s.draw(7));
    bool escape = s.draw(2);
    uint64_t n = s.draw(3) ? s.draw(200) : s.draw(20000);
    Rng r(s.seed());
    std::string text;
    for (uint64_t i = 0; i < n; ++i) text.push_back(char(r.below(256)));
    DESC(s, "mode " << what << ", " << n << " bytes, leave by exception: " << escape);
    tmp_path p("af");
    { std::ofstream f(p, std::ios::binary); f.write(text.data(), std::streamsize(text.size())); }
    hx::warm_iostreams();
    unsigned fds = open_fds();
    struct Leave {};
    std::string missing = p.p + ".missing";
    if (s.draw(2)) missing = p.p + "/below/a/file";
    if (s.draw(3) == 0) missing += " %s%n{}\n";
    missing = stretched(s, missing);
    std::string path = stretched(s, p.p);
    try {
        if (what == 0) {
            bool threw = false;
            try {
                util::auto_file f(missing.c_str(), s.draw(2) ? "rb" : "r+");
                CK(f.get() != 0, "auto_file without a file");
            } catch (std::invalid_argument const& e) {
                threw = true;
                CK(std::string(e.what()).find(missing) != std::string::npos, "the error does not name the file: " << e.what());
            }
            CK(threw, "auto_file opened a missing file");
        } else if (what == 1) {
            bool threw = false;
            try {
                util::mmap_lines l(missing);
                for (util::mmap_lines::const_iterator it = l.begin(); it != l.end(); ++it) {}
            } catch (std::exception const&) {
                threw = true;
            }
            CK(threw, "mmap_lines opened a missing file");
        } else if (what == 2) {
            util::auto_file f(path.c_str());
            CK(f.get() != 0, "no file");
            std::string got;
            int ch;
            while ((ch = fgetc(f.get())) != EOF) got.push_back(char(ch));
            CK(got == text, "bytes read through auto_file differ");
            if (escape) throw Leave();
        } else if (what == 3) {
            static const char* const modes[] = {"ab", "wb", "r+b", "w+", "a+", "rb+", "w", "a", "r+"};
            std::string more = "more", exp;
            const char* mode = modes[s.draw(9)];
            if (mode[0] == 'a') exp = text + more;
            else if (mode[0] == 'w') exp = more;
            else exp = more + (text.size() > more.size() ? text.substr(more.size()) : std::string());
            {
                util::auto_file f(path.c_str(), mode);
                CK_EQ("bytes written", more.size(), fwrite(more.data(), 1, more.size(), f.get()), "mode " << mode);
                // closing flushes
            }
            CK(slurp(p.p) == exp, "bytes written through auto_file with mode " << mode << " are not in the file");
            if (escape) throw Leave();
        } else if (what == 5) { // a read that fails
            bool dir = s.draw(2);
            util::auto_file f(dir ? eng::scratch_dir().c_str() : p.p.c_str(), dir ? "rb" : "ab");
            CK(f.get() != 0, "no file");
            CK_EQ("reading a directory or a file open for writing", EOF, fgetc(f.get()), "");
            if (escape) throw Leave();
        } else if (what == 6) { // a write that fails
            util::auto_file f(p, "rb");
            fputc('x', f.get());
            if (escape) throw Leave();
        } else {
            if (text.empty()) throw eng::Discard();
            util::mmap_lines l(path);
            size_t lines = 0;
            for (util::mmap_lines::const_iterator it = l.begin(); it != l.end(); ++it) ++lines;
            size_t exp = size_t(std::count(text.begin(), text.end(), '\n')) + (text.back() != '\n');
            CK_EQ("lines", exp, lines, "");
            if (escape) throw Leave();
        }
    } catch (Leave const&) {
    }
    CK_EQ("open file descriptors afterwards", fds, open_fds(), "mode " << what);
}
