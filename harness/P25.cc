// P25: listed files against a walk of this file's own over trees it made, and
// the order of names against a comparison over their tokens.
#include "h.h"
#include <dirent.h>
#include <sys/stat.h>
#include <map>
#include <memory>
#include <stdexcept>
#include <strnatcmp.h>
#include "mlio/data_stores/file.h"
using Names = std::vector<std::string>;
// ---- the order: white space is skipped; where both names continue with
// digits the numbers are compared (by value; digit by digit if one starts
// with a zero), otherwise the characters
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool gap(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static Names tokens(const std::string &s)
{
    Names r;
    for (size_t i = 0; i < s.size();) {
        if (gap(s[i])) { i++; continue; }
        size_t e = i + 1;
        if (dig(s[i])) while (e < s.size() && dig(s[e])) e++;
        r.push_back(s.substr(i, e - i));
        i = e;
    }
    return r;
}
static int sign(int x) { return (x > 0) - (x < 0); }
static int order(const std::string &a, const std::string &b)
{
    auto x = tokens(a), y = tokens(b);
    for (size_t i = 0; i < x.size() || i < y.size(); i++) {
        if (i == x.size()) return static_cast<signed char>(y[i][0]) < 0 ? 1 : -1;
        if (i == y.size()) return static_cast<signed char>(x[i][0]) < 0 ? -1 : 1;
        if (dig(x[i][0]) && dig(y[i][0])) {
            if (x[i][0] != '0' && y[i][0] != '0' && x[i].size() != y[i].size()) return x[i].size() < y[i].size() ? -1 : 1;
            int c = sign(x[i].compare(y[i]));
            if (c) return c;
        }
        else if (x[i][0] != y[i][0]) return static_cast<signed char>(x[i][0]) < static_cast<signed char>(y[i][0]) ? -1 : 1;
    }
    return 0;
}
static std::string name(bool file)
{
    std::string r;
    size_t n = 1 + h::rnd(4);
    for (size_t i = 0; i < n; i++) {
        if (h::coin()) { std::string d = std::to_string(h::rnd(h::pick({3, 12, 120, 100000}))); r += h::coin(5) ? "0" + d : d; if (h::coin(9)) r += "2345678901234567890123"; }
        else r += h::pick(Names{"a", "b", "x", " ", "-", "_", ".", "\xc3\xa9", "B", "\t"});
    }
    if (file && h::coin()) r += h::pick(Names{".csv", ".gz", ".txt"});
    return r == "." || r == ".." ? "q" : r;
}
static void compare()
{
    auto any = [] { return h::coin() ? h::letters("019 a\xe9.", h::rnd(7)) : name(true); };
    std::string a = any(), b = h::coin(3) ? a + any() : any(), c = any();
    if (h::coin(4)) { size_t p = h::rnd(a.size() + 1); b = a.substr(0, p) + (h::coin() ? "0" : "7") + a.substr(p); }
    h::begin("the order of " + h::str({a, b, c}));
    auto cmp = [](const std::string &x, const std::string &y) {
        auto p = std::make_unique<char[]>(x.size() + 1), q = std::make_unique<char[]>(y.size() + 1);
        memcpy(p.get(), x.c_str(), x.size() + 1);
        memcpy(q.get(), y.c_str(), y.size() + 1);
        return sign(strnatcmp(p.get(), q.get()));
    };
    int ab = cmp(a, b), bc = cmp(b, c), ac = cmp(a, c);
    h::eq(ab, order(a, b), "comparison of " + h::esc(a) + " and " + h::esc(b));
    h::eq(bc, order(b, c), "comparison of " + h::esc(b) + " and " + h::esc(c));
    h::eq(cmp(b, a), -ab, "comparison the other way round");
    h::eq(cmp(a, a), 0, "comparison with itself");
    if (ab <= 0 && bc <= 0) CHECK(ac <= 0, "the order is not transitive");
    if (ab >= 0 && bc >= 0) CHECK(ac >= 0, "the order is not transitive");
    h::nontrivial();
}
// ---- trees
struct Node {
    char kind = 'f';  // f(ile), d(irectory), p(ipe), x (dangling link)
    std::map<std::string, Node> sub{};
};
static std::string top;
static void remove(const std::string &p) { (void)!system(("rm -rf '" + p + "'").c_str()); }
static bool clash(const Node &n, const std::string &x)
{
    for (auto &e : n.sub) if (!order(e.first, x)) return true;
    return false;
}
static void grow(Node &n, const std::string &at, int depth, std::string &text)
{
    size_t k = h::rnd(depth == 0 ? 12 : 5);
    for (size_t i = 0; i < k; i++) {
        bool d = depth < 3 && h::coin(4);
        auto x = name(!d);
        if (clash(n, x)) continue;
        auto p = at + "/" + x;
        Node c;
        if (d) {
            if (mkdir(p.c_str(), 0700)) continue;
            c.kind = 'd';
            text += " " + p + "/";
            grow(c, p, depth + 1, text);
            if (h::coin(4) && !clash(c, "loop")) { if (symlink(".", (p + "/loop").c_str())) abort(); Node l; l.kind = 'x'; c.sub["loop"] = l; }
        }
        else {
            switch (h::rnd(12)) {
            case 0: if (mkfifo(p.c_str(), 0600)) continue; c.kind = 'p'; break;
            case 1: if (symlink("/nonexistent/file", p.c_str())) continue; c.kind = 'x'; break;
            case 2: if (symlink((top + "/target").c_str(), p.c_str())) continue; break;
            default: { FILE *f = fopen(p.c_str(), "w"); if (!f) continue; if (h::coin()) fputs("1\n", f); fclose(f); }
            }
            text += " " + p + (c.kind == 'f' ? "" : c.kind == 'p' ? "|" : "@");
        }
        n.sub[x] = c;
    }
}
static void walk(const Node &n, const std::string &at, Names &r)
{
    if (n.kind == 'f') r.push_back(at);
    if (n.kind != 'd') return;
    Names k;
    for (auto &e : n.sub) k.push_back(e.first);
    std::sort(k.begin(), k.end(), [](auto &a, auto &b) { return order(a, b) < 0; });
    for (auto &x : k) walk(n.sub.at(x), at + (at.back() == '/' ? "" : "/") + x, r);
}
static bool match(const char *p, const char *s)
{
    if (!*p) return !*s;
    if (*p == '*') return match(p + 1, s) || (*s && match(p, s + 1));
    if (!*s) return false;
    if (*p == '?') return match(p + 1, s + 1);
    if (*p == '[') {
        const char *e = strchr(p, ']');
        bool in = false, neg = p[1] == '!';
        for (const char *q = p + 1 + neg; q < e; q++) if (q[1] == '-') { in |= *s >= *q && *s <= q[2]; q += 2; } else in |= *q == *s;
        return in != neg && match(e + 1, s + 1);
    }
    return *p == *s && match(p + 1, s + 1);
}
static Names ids(const std::vector<Intrusive_ptr<Data_store>> &v)
{
    Names r;
    for (auto &d : v) r.push_back(d->id());
    return r;
}
static int serial = 0;
static void trees()
{
    std::string dir = top + "/t" + std::to_string(serial++), text;
    mkdir(dir.c_str(), 0700);
    Node root;
    root.kind = 'd';
    grow(root, dir, 0, text);
    // some of the entries and the whole, as the paths given
    std::vector<std::pair<std::string, const Node *>> roots;
    if (h::coin()) roots.push_back({h::coin(3) ? dir + "/" : dir, &root});
    else
        for (auto &e : root.sub)
            if (e.second.kind != 'x' && h::coin() && order(dir + "/" + e.first, dir)) roots.push_back({dir + "/" + e.first, &e.second});
    for (size_t i = roots.size(); i > 1; i--) std::swap(roots[i - 1], roots[h::rnd(i)]);
    for (int round = 0; round < 3; round++) {
        std::string pattern = h::coin() ? "" : h::pick(Names{"*", "*.csv", "*a*", "*/?", "*[0-4]*.gz", "*[!0-9]", "?*1*", dir + "/*", "x", "*.txt"});
        int pred = static_cast<int>(h::rnd(4));
        Names given;
        for (auto &r : roots) given.push_back(r.first);
        h::begin("list_files of " + h::str(given) + " pattern " + h::esc(pattern) + " predicate " + std::to_string(pred) + " in the tree" + text);
        auto sorted = roots;
        std::sort(sorted.begin(), sorted.end(), [](auto &a, auto &b) { return order(a.first, b.first) < 0; });
        Names all, want, asked, shown;
        for (auto &r : sorted) walk(*r.second, r.first, all);
        for (auto &f : all) {
            if (!pattern.empty() && !match(pattern.c_str(), f.c_str())) continue;
            asked.push_back(f);
            if (pred >= 2 && f.size() % static_cast<size_t>(pred)) continue;
            want.push_back(f);
        }
        File_list_options::Predicate_callback cb, none;
        if (pred >= 2) cb = [&](const std::string &f) { shown.push_back(f); return f.size() % static_cast<size_t>(pred) == 0; };
        File_list_options o;
        o.pattern = pattern;
        o.predicate = pred == 0 ? nullptr : pred == 1 ? &none : &cb;
        o.memory_map = h::coin();
        o.compression = h::pick(std::vector<Compression>{Compression::none, Compression::infer, Compression::gzip});
        auto got = list_files(given, o);
        h::eqv(ids(got), want, "listed files");
        if (pred >= 2) h::eqv(shown, asked, "files the predicate was asked about");
        for (auto &d : got) h::eqs(d->repr(), File(d->id(), o.memory_map, o.compression).repr(), "data store of the file");
        if (roots.size() == 1 && pred == 0) h::eqv(ids(list_files(given[0], pattern)), want, "files listed below one path");
        if (!want.empty()) h::nontrivial();
    }
    {
        h::begin("list_files with a path that does not exist, in the tree" + text);
        Names given{dir + "/no such file"};
        if (h::coin()) given.insert(given.begin() + static_cast<long>(h::rnd(2)), dir);
        h::eqs(h::raised<std::system_error>([&] { list_files(given); }), "expected", "a path that does not exist");
    }
    if (h::coin(4)) {
        h::begin("a predicate that fails");
        File_list_options o;
        File_list_options::Predicate_callback cb = [](const std::string &) -> bool { throw std::out_of_range{"no"}; };
        o.predicate = &cb;
        Names given{dir}, all;
        walk(root, dir, all);
        h::eqs(h::raised<std::out_of_range>([&] { list_files(given, o); }), all.empty() ? "" : "expected", "the predicate's exception");
    }
    if (h::coin(4)) {
        h::begin("no paths at all");
        h::eqv(ids(list_files(stdx::span<const std::string>{})), {}, "files below no path");
    }
    remove(dir);
}
int main(int argc, char **argv)
{
    char nm[] = "/tmp/p25XXXXXX";
    top = mkdtemp(nm);
    { FILE *f = fopen((top + "/target").c_str(), "w"); fclose(f); }
    int r = h::run(argc, argv, [](double end, bool) {
        while (h::now() < end) {
            for (int i = 0; i < 200; i++) compare();
            trees();
        }
    });
    remove(top);
    return r;
}
