// C37: the headers can be included on their own, in any order and in any number
// of translation units. A case is a small program that is generated, compiled
// against the current tree, linked with the library's objects and run. This
// file includes no header of the library itself.
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "../engine/engine.hpp"

using eng::Src;

namespace {
struct Header {
    const char* name;
    const char* body; // returns false when the header does not do what it is for
};
#define FILL "std::vector<unsigned long long> v; for (int i = 0; i < 200; ++i) v.push_back((unsigned long long)(i * 37 % 91)); "
#define BITS "std::vector<bool> v; for (int i = 0; i < 300; ++i) v.push_back(i % 3 == 0); "
#define ALL "for (size_t i = 0; i < v.size(); ++i) if (s[i] != v[i]) return false; return s.size() == v.size();"
const Header H[] = {
    {"bit_vector.hpp", "succinct::bit_vector_builder b; for (int i = 0; i < 300; ++i) b.push_back(i % 3 == 0); succinct::bit_vector s(&b); "
                       "succinct::bit_vector::unary_enumerator u(s, 1); succinct::bit_vector::enumerator e(s, 3); "
                       "return s.size() == 300 && s[3] && !s[4] && s.predecessor1(5) == 3 && u.next() == 3 && e.take(4) == 9;"},
    {"rs_bit_vector.hpp", BITS "succinct::rs_bit_vector s(v, true, true); return s.num_ones() == 100 && s.rank(30) == 10 && s.select(9) == 27 && s.select0(2) == 4;"},
    {"bp_vector.hpp", "std::vector<char> v; for (int i = 0; i < 300; ++i) v.push_back(i < 150); succinct::bp_vector s(v); "
                      "return s.find_close(10) == 289 && s.find_open(290) == 9 && s.enclose(7) == 6 && s.excess(150) == 150;"},
    {"broadword.hpp", "return succinct::broadword::popcount(0xF0F0ULL) == 8 && succinct::broadword::msb(40) == 5 && succinct::broadword::lsb(40) == 3 && succinct::broadword::select_in_word(0xF0ULL, 2) == 6;"},
    {"cartesian_tree.hpp", FILL "succinct::cartesian_tree s(v); return s.size() == 200 && s.rmq(0, 90) == 0 && s.rmq(1, 60) == 32;"},
    {"darray.hpp", BITS "succinct::bit_vector b(v); succinct::darray1 s(b); succinct::darray0 z(b); return s.num_positions() == 100 && s.select(b, 7) == 21 && z.select(b, 2) == 4;"},
    {"darray64.hpp", "succinct::darray64::builder b; for (int i = 0; i < 100; ++i) b.append1(2); succinct::darray64 s(&b); return s.num_ones() == 100 && s.select(7) == 23;"},
    {"elias_fano.hpp", "succinct::elias_fano::elias_fano_builder b(1000, 100); for (int i = 0; i < 100; ++i) b.push_back((unsigned)i * 9); succinct::elias_fano s(&b); "
                       "succinct::elias_fano::select_enumerator e(s, 5); return s.select(7) == 63 && s.rank(64) == 8 && s.delta(3) == 9 && e.next() == 45;"},
    {"elias_fano_list.hpp", FILL "succinct::elias_fano_list s(v); " ALL},
    {"elias_fano_compressed_list.hpp", FILL "succinct::elias_fano_compressed_list s(v); " ALL},
    {"forward_enumerator.hpp", "struct C { typedef int value_type; int operator[](size_t i) const { return int(i) * 5; } } c; succinct::forward_enumerator<C> e(c, 3); return e.next() == 15 && e.next() == 20;"},
    {"gamma_vector.hpp", FILL "succinct::gamma_vector s(v); succinct::forward_enumerator<succinct::gamma_vector> e(s, 4); if (e.next() != v[4]) return false; " ALL},
    {"gamma_bit_vector.hpp", FILL "succinct::gamma_bit_vector s(v); succinct::forward_enumerator<succinct::gamma_bit_vector> e(s, 4); if (e.next() != v[4]) return false; " ALL},
    {"mappable_vector.hpp", FILL "succinct::mapper::mappable_vector<unsigned long long> s(v); " ALL},
    {"mapper.hpp", FILL "succinct::mapper::mappable_vector<unsigned long long> t(v), s; std::vector<unsigned long long> w(v.size() + 2, 0); w[1] = v.size(); "
                   "for (size_t i = 0; i < v.size(); ++i) w[i + 2] = v[i]; if (succinct::mapper::size_of(t) != 1608 || succinct::mapper::size_tree_of(t)->size != 1608) return false; "
                   "if (succinct::mapper::map(s, (char const*)&w[0]) != 1616) return false; " ALL},
    {"nibble_vector.hpp", "std::vector<int> v; for (int i = 0; i < 33; ++i) v.push_back(i % 16); succinct::nibble_vector s(v); " ALL},
    {"topk_vector.hpp", FILL "succinct::topk_vector<succinct::mapper::mappable_vector<unsigned long long> > s(v); return s.topk(0, 90, 3)[0].get<0>() == 90 && s.topk(0, 90, 3)[2].get<0>() == 88;"},
    {"util.hpp", "const char* t = \"ab\\ncd\"; succinct::util::buffer_line_iterator it(t, 5), end; size_t n = 0; for (; it != end; ++it) n += it->size(); "
                 "std::string x = \"e\\r\\n\"; succinct::util::trim_newline_chars(x); "
                 "return n == 4 && x == \"e\" && succinct::util::int2nat(-3) == 5 && succinct::util::nat2int(5) == -3 && succinct::util::ceil_div(7, 2) == 4;"},
    {"vbyte.hpp", "std::vector<unsigned char> v; size_t n = succinct::append_vbyte(v, 123456789), x = 0; return n == succinct::vbyte_size(123456789) && succinct::decode_vbyte(v, 0, x) == n && x == 123456789;"},
};
const size_t NH = sizeof(H) / sizeof(H[0]);

// the directory of this configuration: the farm and the library's objects
std::string top()
{
    char b[4096];
    ssize_t n = readlink("/proc/self/exe", b, sizeof(b) - 1);
    if (n <= 0) throw eng::Discard();
    std::string p(b, size_t(n));
    return p.substr(0, p.rfind('/'));
}
std::vector<std::string> files(std::string const& dir, std::string const& suffix)
{
    std::vector<std::string> r;
    DIR* d = opendir(dir.c_str());
    if (!d) throw eng::Discard();
    while (struct dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n.size() > suffix.size() && !n.compare(n.size() - suffix.size(), suffix.size(), suffix)) r.push_back(n);
    }
    closedir(d);
    std::sort(r.begin(), r.end());
    return r;
}
struct Dir {
    std::string p;
    std::vector<std::string> made;
    Dir() : p(eng::scratch_file("headers")) { mkdir(p.c_str(), 0700); }
    std::string file(std::string const& n, std::string const& text)
    {
        std::string f = p + "/" + n;
        std::ofstream(f.c_str()) << text;
        made.push_back(f);
        return f;
    }
    std::string name(std::string const& n)
    {
        made.push_back(p + "/" + n);
        return p + "/" + n;
    }
    ~Dir()
    {
        for (size_t i = 0; i < made.size(); ++i) unlink(made[i].c_str());
        rmdir(p.c_str());
    }
};
// exit code of a shell command; its output in `out`
int sh(std::string const& cmd, std::string const& outfile, std::string& out)
{
    int rc = system((cmd + " >" + outfile + " 2>&1 </dev/null").c_str());
    std::ifstream f(outfile.c_str());
    std::ostringstream os;
    os << f.rdbuf();
    out = os.str();
    // a compiler ended from outside says nothing about the code
    if (rc == -1 || WIFSIGNALED(rc) || WEXITSTATUS(rc) > 128 || out.find("Killed signal") != std::string::npos ||
        out.find("out of memory") != std::string::npos || out.find("No space left") != std::string::npos)
        throw eng::Discard();
    return WEXITSTATUS(rc);
}
std::string errors(std::string const& out)
{
    std::istringstream is(out);
    std::string l, r;
    int n = 0;
    while (std::getline(is, l))
        if ((l.find("error") != std::string::npos || l.find("multiple definition") != std::string::npos || l.find("undefined reference") != std::string::npos) && n++ < 3)
            r += l + "\n";
    return r.empty() ? out.substr(0, 600) : r;
}
} // namespace

FACET(headers, "a case is a program of 1 to 3 translation units, each including 1 to 7 of the 19 public headers in a drawn order (some twice), by either spelling, before anything else, and using what each is for; it is compiled, linked with the library and run; non-trivial with at least 2 translation units or 2 headers")
{
    const std::string t = top();
    std::vector<std::string> avail = files(t + "/succinct", ".hpp");
    unsigned ntu = 1 + unsigned(s.draw(3));
    // 0: "succinct/x.hpp" with the parent directory in the path; 1: "x.hpp" with
    // the directory itself, as the library's own tests do; 2: both ways
    unsigned spelling = unsigned(s.draw(3));
    bool ndebug = s.draw(2);
    bool optimise = s.draw(6) == 0;
    Dir d;
    std::string cmd = "cd '" + d.p + "' && g++ -std=gnu++17 -w ";
    if (spelling != 1) cmd += "-I'" + t + "' ";
    if (spelling != 0) cmd += "-I'" + t + "/succinct' ";
    cmd += ndebug ? "-DNDEBUG " : "";
    cmd += optimise ? "-O1 " : "-O0 ";
    std::ostringstream decl, calls;
    size_t most = 0;
    size_t common = s.draw(2) ? size_t(s.draw(NH)) : NH; // a header all units include
    DESC(s, ntu << " units, spelling " << spelling << (ndebug ? " NDEBUG" : "") << ": ");
    for (unsigned u = 0; u < ntu; ++u) {
        std::vector<size_t> hs;
        size_t n = 1 + size_t(s.draw(s.draw(3) ? 4 : 7));
        for (size_t i = 0; i < n; ++i) {
            size_t h = size_t(s.draw(NH));
            if (std::find(avail.begin(), avail.end(), H[h].name) == avail.end()) continue;
            hs.push_back(h); // twice is allowed
        }
        if (common < NH && std::find(avail.begin(), avail.end(), H[common].name) != avail.end()) hs.push_back(common);
        std::ostringstream src;
        std::set<size_t> uniq;
        for (size_t i = 0; i < hs.size(); ++i) {
            bool plain = spelling == 1 || (spelling == 2 && s.draw(2));
            src << "#include \"" << (plain ? "" : "succinct/") << H[hs[i]].name << "\"\n";
            DESC(s, (i ? "," : u ? " | " : "") << H[hs[i]].name);
            s.label(H[hs[i]].name);
            if (!i) s.label((std::string("first: ") + H[hs[i]].name).c_str());
            uniq.insert(hs[i]);
        }
        most = std::max(most, uniq.size());
        // what the program itself needs
        src << "#include <vector>\n#include <string>\n";
        for (std::set<size_t>::const_iterator i = uniq.begin(); i != uniq.end(); ++i) {
            src << "bool unit" << u << "_use" << *i << "() { " << H[*i].body << " }\n";
            decl << "bool unit" << u << "_use" << *i << "();\n";
            calls << "    if (!unit" << u << "_use" << *i << "()) { puts(\"unit " << u << ": " << H[*i].name << "\"); return 7; }\n";
        }
        std::ostringstream name;
        name << "u" << u << ".cpp";
        d.file(name.str(), src.str());
        cmd += name.str() + " ";
    }
    s.nontrivial(ntu > 1 || most > 1);
    d.file("main.cpp", "#include <stdio.h>\n" + decl.str() + "int main() {\n" + calls.str() + "    return 0;\n}\n");
    cmd += "main.cpp ";
    std::vector<std::string> cpps = files(t + "/succinct", ".cpp");
    for (size_t i = 0; i < cpps.size(); ++i) cmd += "'" + t + "/" + cpps[i] + ".o' ";
    cmd += "-o prog -lboost_iostreams -lpthread";
    d.name("prog");
    std::string log = d.name("log"), out;
    int rc = sh(cmd, log, out);
    if (rc) eng::fail("does not compile and link:\n" + errors(out));
    rc = sh("'" + d.p + "/prog'", log, out);
    if (rc) eng::fail("the program reports a wrong result or does not finish: " + out.substr(0, 400));
}
