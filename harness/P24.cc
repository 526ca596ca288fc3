// P24: data stores and the names that address them: extensions, paths, S3
// locations; an S3 client with known objects stands in for the service.
#include "h.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <zlib.h>
#include <map>
#include "mlio/data_stores/detail/util.h"
#include "mlio/data_stores/file.h"
#include "mlio/data_stores/in_memory_store.h"
#include "mlio/data_stores/s3_object.h"
#include "mlio/data_stores/sagemaker_pipe.h"
#include "mlio/detail/path.h"
#include "mlio/detail/s3_utils.h"
#include "mlio/memory/file_backed_memory_allocator.h"
#include "mlio/memory/memory_allocator.h"
#include "mlio/not_supported_error.h"
#include "mlio/s3_client.h"
#include "mlio/streams/s3_input_stream.h"
#include "mlio/streams/stream_error.h"
#define WEAK __attribute__((weak))
struct S3_failure : std::runtime_error { using std::runtime_error::runtime_error; };
static std::map<std::string, std::string> objects;      // "bucket\nkey\nversion" -> bytes
static size_t most = SIZE_MAX;
static bool failing = false;
static std::string key(std::string_view b, std::string_view k, std::string_view v) { return std::string(b) + "\n" + std::string(k) + "\n" + std::string(v); }
static const std::string &object(std::string_view b, std::string_view k, std::string_view v)
{
    if (failing) { failing = false; throw S3_failure{"no connection"}; }
    auto i = objects.find(key(b, k, v));
    if (i == objects.end()) throw S3_failure{"no such object: " + h::esc(key(b, k, v))};
    return i->second;
}
namespace Aws::S3 { class S3Client {}; }
namespace mlio { inline namespace abi_v1 {
WEAK S3_client::S3_client(std::unique_ptr<Aws::S3::S3Client> n) noexcept : native_client_{std::move(n)} {}
WEAK S3_client::~S3_client() = default;
WEAK void S3_client::list_objects(std::string_view, std::string_view, const std::function<void(std::string)> &) const {}
WEAK std::size_t S3_client::read_object(std::string_view b, std::string_view k, std::string_view v, std::size_t o, Mutable_memory_span d) const
{
    auto &s = object(b, k, v);
    if (o >= s.size()) throw S3_failure{"range not satisfiable"};
    size_t n = std::min({d.size(), s.size() - o, most});
    memcpy(d.data(), s.data() + o, n);
    return n;
}
WEAK std::size_t S3_client::read_object_size(std::string_view b, std::string_view k, std::string_view v) const { return object(b, k, v).size(); }
}}
static std::string dir;
static std::string gz(const std::string &t)
{
    z_stream z{};
    deflateInit2(&z, 6, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY);
    std::string r(deflateBound(&z, t.size()) + 100, '\0');
    z.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(t.data()));
    z.avail_in = static_cast<uInt>(t.size());
    z.next_out = reinterpret_cast<Bytef *>(&r[0]);
    z.avail_out = static_cast<uInt>(r.size());
    if (deflate(&z, Z_FINISH) != Z_STREAM_END) abort();
    r.resize(z.total_out);
    deflateEnd(&z);
    return r;
}
static std::string bytes(size_t n)
{
    std::string r(n, '\0');
    for (auto &c : r) c = static_cast<char>(h::rnd(h::coin() ? 256 : 4));
    return r;
}
static std::string all(Input_stream &s)
{
    std::string r, b(1 + h::rnd(5000), '\0');
    while (size_t n = s.read(Mutable_memory_span{reinterpret_cast<std::byte *>(&b[0]), b.size()})) r.append(b, 0, n);
    return r;
}
static bool ends(const std::string &s, const std::string &e) { return s.size() > e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
static Compression expected(const std::string &p) { return ends(p, ".gz") ? Compression::gzip : ends(p, ".bz2") ? Compression::bzip2 : ends(p, ".zip") ? Compression::zip : Compression::none; }
static const char *name(Compression c)
{
    switch (c) { case Compression::none: return "none"; case Compression::infer: return "infer"; case Compression::gzip: return "gzip"; case Compression::bzip2: return "bzip2"; case Compression::zip: return "zip"; }
    return "unknown";
}
template<typename E, typename F>
static void refused(const std::string &what, F &&f)
{
    if (auto r = h::raised<E>(f); r != "expected") h::fail(what + " is refused; it " + (r.empty() ? "was accepted" : "raised " + r));
}
// as string views over exactly sized memory
struct View {
    explicit View(const std::string &s) : p{new char[s.size()]}, v{p.get(), s.size()} { memcpy(p.get(), s.data(), s.size()); }
    std::unique_ptr<char[]> p;
    std::string_view v;
};
static std::string some_name()
{
    static const std::vector<std::string> ext{".gz", ".bz2", ".zip", ".g", ".z", ".gzip", ".bz", ".bz22", ".zi", ".gz.bak", ".tar.gz", "gz", "bz2", "zip", ".GZ", ".Zip", ".gz.", ".csv", "", ".bz2.gz", ".gz.zip", ".zz", ".gg", ".zipp", ".b.z2", ".z.ip"};
    std::string r = h::letters("ab.z/gip2\\ ", h::rnd(7));
    for (size_t i = 0, n = h::rnd(3); i < n; i++) r += h::pick(ext);
    if (h::coin(4)) r += h::letters("z/.\\gx", 1);
    return r;
}
static void one_name(const std::string &s)
{
    h::begin("the name " + h::esc(s));
    View v{s};
    auto c = detail::infer_compression(v.v);
    if (c != expected(s)) h::fail(std::string("the compression of the extension is ") + name(expected(s)) + ", got " + name(c));
    bool bad = s.empty() || s.back() == '/' || s.back() == '\\';
    if (bad) {
        refused<std::invalid_argument>("the path", [&] { detail::validate_file_path(v.v); });
        refused<std::invalid_argument>("the file", [&] { File f{s}; });
        refused<std::invalid_argument>("the pipe", [&] { Sagemaker_pipe f{s}; });
    }
    else { detail::validate_file_path(v.v); File f{s}; Sagemaker_pipe p{s}; h::eqs(f.id(), s, "the identifier of the file"); h::eqs(p.id(), s, "the identifier of the pipe"); }
    if (c != Compression::none) h::nontrivial();
}
static void one_uri(const std::string &s)
{
    h::begin("the location " + h::esc(s));
    View v{s};
    bool ok = s.size() > 5 && s.compare(0, 5, "s3://") == 0 && s[5] != '/';
    std::string b, k;
    if (ok) { auto e = s.find('/', 5); b = s.substr(5, e == std::string::npos ? e : e - 5); if (e != std::string::npos) k = s.substr(e + 1); }
    if (!ok) refused<std::invalid_argument>("the location (as a prefix)", [&] { detail::split_s3_uri_to_bucket_and_prefix(v.v); });
    else {
        auto p = detail::split_s3_uri_to_bucket_and_prefix(v.v);
        h::eqs(p.first, b, "the bucket"); h::eqs(p.second, k, "the prefix");
    }
    auto client = make_intrusive<S3_client>(std::make_unique<Aws::S3::S3Client>());
    if (k.empty()) {
        refused<std::invalid_argument>("the location (as an object)", [&] { detail::split_s3_uri_to_bucket_and_key(v.v); });
        refused<std::invalid_argument>("the location (as an object)", [&] { detail::validate_s3_object_uri(v.v); });
        refused<std::invalid_argument>("the S3 object", [&] { S3_object o{client, s}; });
    }
    else {
        auto p = detail::split_s3_uri_to_bucket_and_key(v.v);
        h::eqs(p.first, b, "the bucket"); h::eqs(p.second, k, "the key");
        detail::validate_s3_object_uri(v.v);
        h::nontrivial();
    }
}
static std::string some_uri()
{
    std::string r = h::coin(8) ? h::letters("s3:/S", 5) : h::coin(9) ? std::string("s3:/") : "s3://";
    r += h::letters("ab./s3:", h::rnd(6));
    if (h::coin()) r += "/" + h::letters("ab//.", h::rnd(5));
    return r;
}
template<typename F>
static void contents(const std::string &what, const std::string &raw, const std::string &plain, Compression c, F &&open)
{
    if (c == Compression::bzip2 || c == Compression::zip) { refused<Not_supported_error>(what, open); return; }
    auto s = open();
    h::eqs(all(*s), c == Compression::gzip ? plain : raw, "the contents of " + what + ", compression " + name(c));
}
static Compression any() { return static_cast<Compression>(h::pick({0, 1, 2, 2, 3, 4})); }
static void stores()
{
    auto given = any();
    std::string plain = bytes(h::rnd(3000)), raw = plain;
    // files: two neighbours with similar names
    static const std::vector<std::string> ends{".gz", ".bz2", ".zip", ".csv", "", ".gz.bak", ".tar.gz"};
    std::string p = dir + "/f" + h::letters("ab", 3) + h::pick(ends), what = "file " + p.substr(dir.size()) + ", compression " + name(given);
    auto c = given == Compression::infer ? expected(p) : given;
    if (c == Compression::gzip || h::coin()) raw = gz(plain);
    what += ", " + std::to_string(raw.size()) + " bytes";
    bool mm = h::coin();
    h::begin(what + (mm ? ", mapped" : ""));
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || write(fd, raw.data(), raw.size()) != static_cast<ssize_t>(raw.size())) abort();
    close(fd);
    {
        File f{p, mm, given};
        h::eqs(f.id(), p, "the identifier");
        for (int i = 0; i < 2; i++) contents("the file", raw, plain, c, [&] { return f.open_read(); });
        if (auto r = f.repr(); r.find(std::string("compression='") + name(c) + "'") == std::string::npos) h::fail("the description names the compression " + std::string(name(c)) + ": " + r);
    }
    unlink(p.c_str());
    // memory
    h::begin("in-memory store of " + std::to_string(raw.size()) + " bytes, compression " + name(given));
    if (given == Compression::infer) refused<Not_supported_error>("inferring", [&] { In_memory_store s{h::slice(raw), given}; });
    else { In_memory_store s{h::slice(raw), given}; for (int i = 0; i < 2; i++) contents("the in-memory store", raw, plain, given, [&] { return s.open_read(); }); }
    // pipes
    std::string ch = dir + "/c" + std::to_string(h::rnd(1u << 30));
    h::begin("pipe " + ch.substr(dir.size()) + ", compression " + name(given));
    if (given == Compression::infer) refused<Not_supported_error>("inferring", [&] { Sagemaker_pipe s{ch, std::chrono::seconds{5}, {}, given}; });
    else if (given == Compression::none || given == Compression::gzip) {
        size_t id = h::rnd(4);
        bool has = h::coin();
        std::string fifo = ch + "_" + std::to_string(has ? id : 0), next = ch + "_" + std::to_string((has ? id : 0) + 1);
        mkfifo(fifo.c_str(), 0600); mkfifo(next.c_str(), 0600);
        Sagemaker_pipe s{ch, std::chrono::seconds{5}, has ? std::optional<size_t>{id} : std::nullopt, given};
        h::eqs(s.id(), ch, "the identifier");
        for (auto &f : {fifo, next}) {
            int w = open(f.c_str(), O_RDWR | O_NONBLOCK);
            if (write(w, raw.data(), raw.size()) != static_cast<ssize_t>(raw.size())) abort();
            auto st = s.open_read();
            // the reader opens the FIFO on its first read; until then the writer stays
            std::string got(1, '\0');
            if (raw.empty()) { int e = open(f.c_str(), O_RDONLY | O_NONBLOCK); close(w); close(e); continue; }
            size_t n = st->read(Mutable_memory_span{reinterpret_cast<std::byte *>(&got[0]), 1});
            close(w);
            got.resize(n);
            got += all(*st);
            h::eqs(got, given == Compression::gzip ? plain : raw, "the contents of the pipe " + f.substr(dir.size()));
        }
        unlink(fifo.c_str()); unlink(next.c_str());
    }
    h::nontrivial();
}
static std::string part(const char *alphabet) { return h::letters(alphabet, 1 + h::rnd(3)); }
static void s3()
{
    objects.clear();
    auto client = make_intrusive<S3_client>(std::make_unique<Aws::S3::S3Client>());
    std::string b = part("ab.s"), k = part("ab/") + (h::coin() ? ".gz" : h::coin() ? ".csv" : h::coin() ? ".zip" : ""), v = h::coin() ? part("12") : "";
    std::string plain = bytes(h::rnd(2000)), raw = h::coin() ? gz(plain) : plain;
    auto given = any();
    std::string uri = "s3://" + b + "/" + k;
    auto c = given == Compression::infer ? expected(uri) : given;
    if (c == Compression::gzip) raw = gz(plain);
    objects[key(b, k, v)] = raw;
    for (int i = 0; i < 4; i++) objects.emplace(key(part("ab.s"), part("ab/"), part("12")), "another object");
    objects.emplace(key(b, k, v.empty() ? "1" : ""), "another version");
    most = h::coin() ? SIZE_MAX : 1 + h::rnd(9);
    std::string what = "S3 object " + uri + ", version " + h::esc(v) + ", compression " + name(given) + ", " + std::to_string(raw.size()) + " bytes, the client delivers at most " + (most == SIZE_MAX ? "all" : std::to_string(most));
    h::begin(what);
    {
        S3_object o{client, uri, v, given};
        for (int i = 0; i < 2; i++) h::eqs(o.id(), v.empty() ? uri : uri + "@" + v, "the identifier");
        for (int i = 0; i < 2; i++) contents("the object", raw, plain, c, [&] { return o.open_read(); });
    }
    objects[key(b, k, v)] = raw;
    h::begin(what + ", opening with the client failing");
    failing = true;
    if (auto r = h::raised<S3_failure>([&] { make_s3_input_stream(client, uri, v); }); r != "expected") h::fail("a failure of the client is reported; opening " + (r.empty() ? "returned" : "raised " + r));
    failing = false;
    auto s = make_s3_input_stream(client, uri, v);
    size_t pos = 0;
    bool open = true;
    what += ":";
    for (int i = 0, m = 3 + static_cast<int>(h::rnd(12)); i < m; i++) {
        size_t n = h::pick({0, 1, raw.size(), raw.size() + 1, h::rnd(raw.size() + 2), h::rnd(20)});
        most = h::coin() ? SIZE_MAX : 1 + h::rnd(9);
        switch (h::rnd(8)) {
        case 0: case 1: case 2: {
            bool bad = h::coin(6);
            what += " read " + std::to_string(n) + (bad ? " (fails)" : "") + ","; h::begin(what);
            std::string buf(n + 16, 'x');
            Mutable_memory_span t{reinterpret_cast<std::byte *>(&buf[0]) + 8, n};
            if (!open) { refused<Stream_error>("reading a closed stream", [&] { s->read(t); }); break; }
            failing = bad && n && pos < raw.size();
            if (failing) { refused<S3_failure>("reading with a failing client", [&] { s->read(t); }); break; }
            size_t r = s->read(t);
            h::eq(r, std::min({n, raw.size() - pos, most}), "bytes read");
            h::eqs(buf.substr(8, r), raw.substr(pos, r), "the bytes read from " + std::to_string(pos));
            h::eqs(buf.substr(0, 8) + buf.substr(8 + r), std::string(8 + n - r + 8, 'x'), "the rest of the buffer");
            pos += r;
            break;
        }
        case 3: case 4:
            what += " seek " + std::to_string(n) + ","; h::begin(what);
            if (!open) { refused<Stream_error>("seeking a closed stream", [&] { s->seek(n); }); break; }
            if (n > raw.size()) { refused<std::system_error>("a position behind the end", [&] { s->seek(n); }); break; }
            s->seek(n); pos = n;
            break;
        case 5: if (h::coin(4)) { what += " close,"; s->close(); open = false; } break;
        default: break;
        }
        h::eq(s->closed(), !open, "closed");
        if (open) { h::eq(s->position(), pos, "position"); h::eq(s->size(), raw.size(), "size"); h::eq(s->seekable(), true, "seekable"); }
    }
    h::nontrivial();
    most = SIZE_MAX;
}
int main(int argc, char **argv)
{
    set_memory_allocator(std::make_unique<File_backed_memory_allocator>());
    char nm[] = "/tmp/p24XXXXXX";
    dir = mkdtemp(nm);
    int r = h::run(argc, argv, [](double end, bool) {
        h::strings(".gzbip2", 5, [](const std::string &s) { one_name(s); });
        for (auto &e : {".gz", ".bz2", ".zip"}) h::strings(".a/", 3, [&](const std::string &s) { one_name(s + e); one_name(e + s); });
        h::strings("a/", 4, [](const std::string &s) { one_uri("s3://" + s); one_uri("s3:/" + s); one_uri("S3://" + s); one_uri(s); });
        h::strings("s3:/", 6, [](const std::string &s) { one_uri(s); });
        while (h::now() < end) {
            for (int i = 0; i < 100; i++) { one_name(some_name()); one_uri(some_uri()); }
            for (int i = 0; i < 5; i++) { stores(); s3(); }
        }
    });
    (void)!system(("rm -rf " + dir).c_str());
    return r;
}
