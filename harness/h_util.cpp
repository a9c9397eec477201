// C26 vbyte, C27 nibble_vector, C28 line readers, C29 int2nat/nat2int/ceil_div
#include <cassert>
#include <cstddef>
#include <deque>
#include <list>
#include <sys/mman.h>
#include "../engine/gen.hpp"
#include "util.hpp"
#include "vbyte.hpp"
#include "nibble_vector.hpp"
#include "routes.hpp"

using namespace succinct;
using eng::Rng;
using eng::Src;

namespace {

// ------------------------------------------------------------------- vbyte
struct ByteSink { // a user-defined Vector
    std::vector<unsigned char> b;
    void push_back(uint8_t c) { b.push_back(c); }
    uint8_t operator[](size_t i) const { return b.at(i); }
    size_t size() const { return b.size(); }
};

// A vector of which only the part from index `base` on is real, such as the
// end of a file of many gigabytes.
struct FarBytes {
    std::vector<unsigned char> b;
    size_t base;
    explicit FarBytes(size_t base_) : base(base_) {}
    void push_back(uint8_t c) { b.push_back(c); }
    uint8_t operator[](size_t i) const
    {
        if (i < base) eng::fail("an index below the offset given to decode_vbyte was read");
        return b.at(i - base);
    }
    size_t size() const { return base + b.size(); }
};

unsigned groups(uint64_t v)
{
    unsigned g = 1;
    while (v >>= 7) ++g;
    return g;
}

template <typename V>
void vbyte_check(std::vector<uint64_t> const& vals, V& buf, size_t base)
{
    std::vector<size_t> len;
    for (uint64_t v : vals) {
        size_t before = buf.size();
        CK_EQ("vbyte_size", size_t(groups(v)), vbyte_size(v), "v=" << v);
        size_t l = append_vbyte(buf, v);
        CK_EQ("append_vbyte length", size_t(groups(v)), l, "v=" << v);
        CK_EQ("bytes appended", l, buf.size() - before, "v=" << v);
        for (size_t i = before; i < buf.size(); ++i)
            CK_EQ("continuation bit", i + 1 < buf.size(), (uint8_t(buf[i]) & 0x80) != 0, "v=" << v << " byte " << i - before);
        len.push_back(l);
    }
    size_t off = base;
    for (size_t i = 0; i < vals.size(); ++i) {
        size_t got = 0xdeadbeef;
        V const& cb = buf;
        size_t l = decode_vbyte(cb, off, got);
        CK_EQ("decoded value", vals[i], uint64_t(got), "i=" << i << " offset=" << off);
        CK_EQ("decoded length", len[i], l, "i=" << i);
        off += l;
    }
    CK_EQ("end of buffer", buf.size(), off, "");
}

// ------------------------------------------------------------------- lines
std::string text(Src& s, bool nul)
{
    std::string t;
    unsigned nl = unsigned(s.draw(12));
    static const size_t special[] = {0, 1, 65534, 65535, 65536, 65537, 131069, 131070, 131071, 196605, 4096};
    for (unsigned i = 0; i < nl; ++i) {
        size_t len;
        switch (s.draw(8)) {
        case 0: len = special[s.draw(11)]; break;
        case 1: len = special[s.draw(11)] + s.draw(4); break;
        case 2: len = size_t(s.draw(200000)); break;
        case 3: len = 0; break;
        default: len = size_t(s.draw(30));
        }
        unsigned kind = unsigned(s.draw(4));
        Rng r(s.seed());
        for (size_t j = 0; j < len; ++j) {
            char c;
            switch (kind) {
            case 0: c = char('a' + j % 26); break;
            case 1: c = char(1 + r.below(255)); break;   // any byte but NUL
            case 2: c = "ab\r \xff"[r.below(5)]; break;
            default: c = nul && r.below(8) == 0 ? '\0' : char(1 + r.below(255));
            }
            if (c == '\n') c = 'n';
            t += c;
        }
        for (unsigned k = unsigned(s.draw(3)); k; --k) t += '\r';
        if (i + 1 < nl || s.draw(2)) t += '\n';
    }
    return t;
}

// each line with its newline
std::vector<std::string> split(std::string const& t)
{
    std::vector<std::string> v;
    size_t b = 0;
    while (b < t.size()) {
        size_t e = t.find('\n', b);
        e = e == std::string::npos ? t.size() : e + 1;
        v.push_back(t.substr(b, e - b));
        b = e;
    }
    return v;
}
std::string trimmed(std::string l)
{
    while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
    return l;
}
std::string bare(std::string l)
{
    if (!l.empty() && l.back() == '\n') l.pop_back();
    if (!l.empty() && l.back() == '\r') l.pop_back();
    return l;
}
std::string brief(std::string const& l)
{
    std::ostringstream os;
    os << "<" << l.size() << " bytes";
    for (size_t i = 0; i < l.size() && i < 20; ++i) os << " " << std::hex << (unsigned)(uint8_t)l[i];
    os << (l.size() > 20 ? " ...>" : ">");
    return os.str();
}
void same_line(const char* what, size_t i, std::string const& e, std::string const& g)
{
    if (e != g) {
        std::ostringstream os;
        os << what << ": line " << i << " expected " << brief(e) << " got " << brief(g);
        eng::fail(os.str());
    }
}

struct TmpFile {
    std::string path;
    explicit TmpFile(std::string const& t) : path(eng::scratch_file("lines"))
    {
        FILE* f = fopen(path.c_str(), "wb");
        if (!f) {
            perror(path.c_str());
            _exit(77);
        }
        if (!t.empty()) fwrite(t.data(), 1, t.size(), f);
        fclose(f);
    }
    ~TmpFile() { unlink(path.c_str()); }
};

} // namespace

FACET(vbyte, "a case is a sequence of 64-bit values appended to one of several buffer types, sometimes after a prefix; non-trivial with at least 2 values")
{
    uint64_t n = s.draw(40);
    if (s.draw(20) == 0) n = s.draw(3000);
    std::vector<uint64_t> v;
    if (s.draw(2)) {
        for (uint64_t i = 0; i < std::min<uint64_t>(n, 60); ++i) {
            // around 7-bit boundaries
            uint64_t p = uint64_t(1) << std::min<uint64_t>(63, 7 * s.draw(10));
            v.push_back(s.draw(3) ? p + s.draw(5) - 2 : s.logu(UINT64_MAX));
        }
    } else
        v = gen::values(s, n, UINT64_MAX);
    DESC(s, gen::show_vec(v));
    s.nontrivial(v.size() >= 2);
    size_t pre = size_t(s.draw(4));
    switch (s.draw(5)) {
    case 4: {
        pre = size_t((s.draw(2) ? uint64_t(1) << (31 + s.draw(30)) : uint64_t(1) << 32) - s.draw(40));
        FarBytes b(pre);
        vbyte_check(v, b, pre);
        break;
    }
    case 0: {
        std::vector<uint8_t> b(pre, 0x80);
        vbyte_check(v, b, pre);
        break;
    }
    case 1: {
        std::deque<uint8_t> b(pre, 0xff);
        vbyte_check(v, b, pre);
        break;
    }
    case 2: {
        ByteSink b;
        b.b.assign(pre, 0x85);
        vbyte_check(v, b, pre);
        break;
    }
    default: {
        std::string b(pre, '\x80');
        vbyte_check(v, b, pre);
    }
    }
}

FACET(nibble, "a case is a sequence of values below 16 in one of several containers; non-trivial with at least 2 values")
{
    uint64_t n = s.draw(2) ? s.draw(40) : gen::size_upto(s, 60000);
    std::vector<uint64_t> v = gen::values(s, n, 15);
    for (uint64_t i = 0; i < n && i < 4; ++i)
        if (s.draw(2)) v[n - 1 - i] = s.draw(16);
    DESC(s, gen::show_vec(v));
    s.nontrivial(n >= 2);
    s.label(n % 2 ? "odd" : "even");
    nibble_vector nv;
    CK_EQ("size of a default nibble_vector", size_t(0), nv.size(), "");
    switch (s.draw(6)) {
    case 4: {
        Rng g(s.seed());
        kinds::vals_range<uint8_t>(v, g, [&](auto const& r) { nibble_vector(r).swap(nv); });
        break;
    }
    case 5: {
        Rng g(s.seed());
        kinds::vals_range<int64_t>(v, g, [&](auto const& r) { nibble_vector(r).swap(nv); });
        break;
    }
    case 0: nibble_vector(std::vector<uint8_t>(v.begin(), v.end())).swap(nv); break;
    case 1: nibble_vector(std::list<uint32_t>(v.begin(), v.end())).swap(nv); break;
    case 2: {
        std::vector<int> w(v.begin(), v.end());
        nibble_vector(w).swap(nv);
        break;
    }
    default: nibble_vector(v).swap(nv);
    }
    CK_EQ("nibble_vector size", size_t(n), nv.size(), "");
    for (uint64_t i = 0; i < n; ++i) CK_EQ("nibble", v[i], uint64_t(nv[i]), "i=" << i << " n=" << n);
}

FACET(file_lines, "a case is a text (line lengths around the 64 KiB buffer, empty lines, CRs, with or without final newline) read by fast_getline and lines(), trimmed or not; non-trivial with at least 2 lines or a line above 65534 bytes")
{
    std::string t = text(s, false);
    std::vector<std::string> l = split(t);
    bool trim = s.draw(2);
    DESC(s, l.size() << " lines, " << t.size() << " bytes, trim=" << trim);
    bool longline = false;
    for (auto const& x : l) longline |= x.size() > 65534;
    s.nontrivial(l.size() >= 2 || longline);
    if (longline) s.label("line longer than the buffer");
    if (!t.empty() && t.back() != '\n') s.label("no final newline");
    TmpFile f(t);
    {
        util::auto_file in(f.path.c_str());
        std::string line = "stale";
        for (size_t i = 0; i < l.size(); ++i) {
            if (s.draw(2)) line += "left over";
            bool more = !trim && s.draw(2) ? util::fast_getline(line, in.get()) : util::fast_getline(line, in.get(), trim);
            CK_EQ("fast_getline", true, more, "line " << i << " of " << l.size());
            same_line("fast_getline", i, trim ? trimmed(l[i]) : l[i], line);
        }
        CK_EQ("fast_getline at the end", false, util::fast_getline(line, in.get(), trim), "");
    }
    {
        util::auto_file in(f.path.c_str());
        size_t i = 0;
        std::string line;
        for (uint64_t k = s.draw(3) ? 0 : s.draw(4); i < k && i < l.size(); ++i) { // some lines are read before
            CK(util::fast_getline(line, in.get(), trim), "line " << i);
            same_line("fast_getline before lines()", i, trim ? trimmed(l[i]) : l[i], line);
        }
        util::line_range_t r = !trim && s.draw(2) ? util::lines(in.get()) : util::lines(in.get(), trim);
        for (util::line_iterator it = r.first; it != r.second; ++it, ++i) {
            CK(i < l.size(), "lines() yields more than the " << l.size() << " lines of the text");
            same_line("lines", i, trim ? trimmed(l[i]) : l[i], *it);
        }
        CK_EQ("number of lines()", l.size(), i, "");
    }
    if (s.draw(2)) { // post-increment and line_iterator used directly
        util::auto_file in(f.path.c_str(), "r");
        util::line_iterator it = !trim && s.draw(2) ? util::line_iterator(in.get()) : util::line_iterator(in.get(), trim);
        util::line_iterator end;
        size_t i = 0;
        while (it != end) {
            CK(i < l.size(), "line_iterator yields more than the " << l.size() << " lines of the text");
            CK_EQ("length through ->", (trim ? trimmed(l[i]) : l[i]).size(), it->size(), "line " << i);
            it++;
            ++i;
        }
        CK_EQ("number of lines", l.size(), i, "");
    }
    if (s.draw(4) == 0) { // standard input is the default
        if (!freopen(f.path.c_str(), "rb", stdin)) throw eng::Discard();
        std::string line;
        for (size_t i = 0; i < l.size(); ++i) {
            CK(util::fast_getline(line), "line " << i << " of standard input");
            same_line("fast_getline from standard input", i, l[i], line);
        }
        CK_EQ("fast_getline at the end", false, util::fast_getline(line), "");
    }
    for (size_t i = 0; i < l.size() && i < 20; ++i) {
        std::string x = l[i];
        util::trim_newline_chars(x);
        same_line("trim_newline_chars", i, trimmed(l[i]), x);
        util::char_range r = util::stl_string_adaptor()(l[i]);
        CK_EQ("bytes of the string adaptor", ptrdiff_t(l[i].size()) + 1, r.second - r.first, "");
        CK(!memcmp(r.first, l[i].c_str(), l[i].size() + 1), "the string adaptor shows other bytes");
        util::char_range q = util::identity_adaptor()(r);
        CK(q == r, "identity_adaptor changed its argument");
    }
}

FACET(buffer_lines, "a case is a byte buffer (NULs allowed) read by buffer_line_iterator, with copies advanced independently, and through mmap_lines; non-trivial with at least 2 lines")
{
    std::string t = text(s, true);
    std::vector<std::string> l = split(t);
    DESC(s, l.size() << " lines, " << t.size() << " bytes");
    s.nontrivial(l.size() >= 2);
    // an exact-size heap copy, so that reads past the end are visible to ASan,
    // or a copy that ends where an unreadable page starts, as the mapping of a
    // file that fills its last page may
    struct Copy {
        char* p; size_t mapped;
        Copy(std::string const& t) : p(0), mapped(0)
        {
            if (t.size() % 3 != 1) {
                const size_t pg = 4096, body = (t.size() + pg - 1) / pg * pg;
                void* m = mmap(0, body + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
                if (m != MAP_FAILED && mprotect((char*)m + body, pg, PROT_NONE) == 0) {
                    mapped = body + pg;
                    p = (char*)m + body - t.size();
                } else if (m != MAP_FAILED) munmap(m, body + pg);
            }
            if (!p) p = (char*)malloc(t.size() ? t.size() : 1);
            memcpy(p, t.data(), t.size());
            n = t.size();
        }
        size_t n;
        ~Copy()
        {
            if (!mapped) free(p);
            else munmap(p + n - (mapped - 4096), mapped);
        }
    } fr(t);
    char* buf = fr.p;
    util::buffer_line_iterator it(buf, t.size()), end;
    util::buffer_line_iterator saved = it;
    size_t saved_i = 0, i = 0;
    for (; it != end; ++it, ++i) {
        CK(i < l.size(), "more than the " << l.size() << " lines of the buffer");
        same_line("buffer_line_iterator", i, bare(l[i]), *it);
        if (s.draw(4) == 0) {
            saved = it;
            saved_i = i;
        }
        if (s.draw(8) == 0) { // a copy runs ahead
            util::buffer_line_iterator c = it;
            size_t j = i;
            for (uint64_t k = s.draw(3); k && c != end; --k) {
                ++c;
                ++j;
            }
            if (c != end) same_line("copy", j, j < l.size() ? bare(l[j]) : "?", *c);
            else CK_EQ("copy at the end", l.size(), j, "");
            same_line("original after its copy advanced", i, bare(l[i]), *it);
        }
    }
    CK_EQ("number of lines", l.size(), i, "");
    for (; saved != end; saved++, ++saved_i) {
        CK(saved_i < l.size(), "saved copy yields too many lines");
        same_line("saved copy", saved_i, bare(l[saved_i]), *saved);
    }
    CK_EQ("lines from the saved copy", l.size(), saved_i, "");
    if (!t.empty() && s.draw(2)) {
        TmpFile f(t);
        util::mmap_lines m(f.path);
        i = 0;
        for (util::mmap_lines::const_iterator q = m.begin(); q != m.end(); ++q, ++i) {
            CK(i < l.size(), "mmap_lines yields too many lines");
            same_line("mmap_lines", i, bare(l[i]), *q);
        }
        CK_EQ("mmap_lines count", l.size(), i, "");
        size_t again = size_t(std::distance(m.begin(), m.end()));
        CK_EQ("mmap_lines second pass", l.size(), again, "");
    }
}

FACET(ints, "a case is a 64-bit pattern read as signed and unsigned, and dividend/divisor pairs; non-trivial unless 0")
{
    uint64_t n;
    switch (s.draw(5)) {
    case 0: n = s.draw(64); break;
    case 1: n = (uint64_t(1) << s.draw(64)) + s.draw(5) - 2; break;
    case 2: n = UINT64_MAX - s.draw(16); break;
    case 3: n = s.logu(UINT64_MAX); break;
    default: n = s.draw(0);
    }
    DESC(s, "n=" << n);
    s.nontrivial(n != 0);
    int64_t x = int64_t(n);
    uint64_t e = x >= 0 ? 2 * uint64_t(x) : 2 * (~uint64_t(x)) + 1; // -2x-1 = 2(-x-1)+1 = 2(~x)+1
    CK_EQ("int2nat", e, util::int2nat(x), "x=" << x);
    CK_EQ("nat2int(int2nat(x))", x, util::nat2int(util::int2nat(x)), "x=" << x);
    CK_EQ("int2nat(nat2int(n))", n, util::int2nat(util::nat2int(n)), "n=" << n);
    int64_t ne = n % 2 ? int64_t(~(n / 2)) : int64_t(n / 2);
    CK_EQ("nat2int", ne, util::nat2int(n), "n=" << n);

    uint64_t b = s.draw(3) ? 1 + s.logu(UINT64_MAX - 1) : 1 + s.draw(70);
    uint64_t a = s.draw(2) ? n : b * s.draw(100) + s.draw(3) - 1;
    if (a <= UINT64_MAX - (b - 1)) {
        uint64_t q = a / b + (a % b != 0);
        CK_EQ("ceil_div", q, util::ceil_div(a, b), "a=" << a << " b=" << b);
    }
    uint32_t a32 = uint32_t(a), b32 = uint32_t(b) ? uint32_t(b) : 1;
    if (uint64_t(a32) + b32 - 1 <= UINT32_MAX) {
        uint32_t q = a32 / b32 + (a32 % b32 != 0);
        CK_EQ("ceil_div 32", q, util::ceil_div(a32, b32), "a=" << a32 << " b=" << b32);
    }
    // mixed types, as the library itself uses it
    if (a <= UINT64_MAX - 100) {
        uint64_t d = 1 + s.draw(100);
        CK_EQ("ceil_div mixed", a / d + (a % d != 0), util::ceil_div(a, int(d)), "a=" << a << " b=" << d);
    }
}
