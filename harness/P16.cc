// P16: gzip streams against the texts their members were made from, whole,
// truncated and corrupted, with arbitrary read sizes on both sides.
#include "h.h"
#include <zlib.h>
#include "mlio/data_stores/in_memory_store.h"
#include "mlio/memory/file_backed_memory_allocator.h"
#include "mlio/memory/memory_allocator.h"
#include "mlio/streams/gzip_inflate_stream.h"
#include "mlio/streams/stream_error.h"
static std::string text(size_t n)
{
    std::string r;
    int kind = static_cast<int>(h::rnd(3));
    while (r.size() < n) {
        if (kind == 0) r.push_back(static_cast<char>(h::rnd(256)));
        else if (kind == 1) r.append(h::rnd(300), static_cast<char>('a' + h::rnd(3)));
        else r += "line " + std::to_string(h::rnd(50)) + "\n";
    }
    r.resize(n);
    return r;
}
static std::string deflated(const std::string &t, bool gz, int level, bool name)
{
    z_stream z{};
    deflateInit2(&z, level, Z_DEFLATED, (gz ? 16 : 0) + 15, 8, Z_DEFAULT_STRATEGY);
    gz_header hd{};
    Bytef nm[] = "some-file-name.txt";
    hd.name = nm;
    hd.hcrc = 1;
    if (gz && name) deflateSetHeader(&z, &hd);
    std::string r(deflateBound(&z, t.size()) + 100, '\0');
    z.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(t.data()));
    z.avail_in = static_cast<uInt>(t.size());
    z.next_out = reinterpret_cast<Bytef *>(r.data());
    z.avail_out = static_cast<uInt>(r.size());
    if (deflate(&z, Z_FINISH) != Z_STREAM_END) abort();
    r.resize(z.total_out);
    deflateEnd(&z);
    return r;
}
// reads everything; what arrived before an error is kept in got
static std::string drain(Input_stream &in, std::string &got, const std::vector<size_t> &sizes, bool slices)
{
    size_t k = 0;
    try {
        for (size_t idle = 0;;) {
            size_t n = sizes[k++ % sizes.size()], m;
            if (slices) {
                auto s = in.read(n);
                m = s.size();
                got += h::text(s);
            }
            else {
                std::string buf(n + 16, '\x5a');
                m = in.read(Mutable_memory_span{reinterpret_cast<std::byte *>(buf.data() + 8), n});
                if (m > n) h::fail("read returned " + std::to_string(m) + " for a destination of " + std::to_string(n));
                if (buf.substr(0, 8) != std::string(8, '\x5a') || buf.substr(8 + n) != std::string(8, '\x5a')) h::fail("bytes outside the destination were written");
                got.append(buf, 8, m);
            }
            if (n != 0 && m == 0 && ++idle == 2) return "";        // the end stays the end
        }
    }
    catch (const Inflate_error &) { return "inflate error"; }
    catch (const std::exception &e) { return std::string{"other error: "} + e.what(); }
}
static void one(bool big)
{
    std::string plain, comp, what = "members [";
    std::vector<size_t> ends{0};
    for (size_t i = 0, n = h::rnd(4); i < n; i++) {
        auto t = text(h::coin(4) ? 0 : h::rnd(big ? 1500000 : h::coin() ? 20 : h::coin(5) ? 3000 : 300));
        bool gz = !h::coin(3);
        comp += deflated(t, gz, static_cast<int>(h::pick({0, 1, 6, 9})), h::coin());
        plain += t;
        ends.push_back(comp.size());
        what += std::to_string(t.size()) + (gz ? " gzip, " : " zlib, ");
    }
    auto sh = h::shape();
    if (!h::coin(8)) sh.zero_copy = true;        // cheap reads of the 512 KiB the stream asks for
    if (big) sh.reads = h::coin() ? std::vector<size_t>{} : std::vector<size_t>{h::pick({70000, 524288, 524287})};
    std::vector<size_t> sizes;
    for (size_t i = 0, n = 1 + h::rnd(3); i < n; i++) sizes.push_back(big ? h::pick({0x80000, 100000, 1u << 20, 4096}) : h::coin(6) ? 0 : h::coin() ? 1 + h::rnd(5) : 1 + h::rnd(4000));
    if (sizes == std::vector<size_t>(sizes.size(), 0)) sizes.push_back(7);
    bool slices = h::coin(3);
    what += "] " + h::describe(sh) + ", caller reads of [";
    for (auto n : sizes) what += std::to_string(n) + " ";
    what += slices ? "] as slices" : "]";
    int kind = static_cast<int>(h::rnd(3));
    size_t at = 0;
    std::string data = comp;
    if (comp.empty()) kind = 0;
    if (kind == 1) { at = h::coin() ? h::rnd(comp.size()) : comp.size() - 1 - h::rnd(std::min<size_t>(comp.size(), 20)); data.resize(at); what += ", cut to " + std::to_string(at) + " of " + std::to_string(comp.size()) + " compressed bytes"; }
    if (kind == 2) { at = h::rnd(comp.size()); data[at] = static_cast<char>(data[at] ^ (1 << h::rnd(8))); what += ", a bit of compressed byte " + std::to_string(at) + " of " + std::to_string(comp.size()) + " flipped"; }
    h::begin(what + (data.size() < 200 ? ", data " + h::esc(data) : ""));
    Intrusive_ptr<Input_stream> in = h::coin(4) ? In_memory_store{h::slice(data), Compression::gzip}.open_read() : Intrusive_ptr<Input_stream>{make_intrusive<Gzip_inflate_stream>(h::stream(data, sh))};
    std::string got;
    auto e = drain(*in, got, sizes, slices);
    if (kind == 0) { h::eqs(e, "", "outcome"); h::eqs(got, plain, "decompressed bytes"); }
    else if (kind == 1) {
        bool whole = std::find(ends.begin(), ends.end(), at) != ends.end();
        h::eqs(e, whole ? "" : "inflate error", "outcome for cut data");
        if (plain.substr(0, got.size()) != got) h::fail("the bytes delivered before the cut are not those of the text");
        if (whole) { size_t k = 0; for (auto v : ends) if (v == at) break; else k++; (void)k; }
    }
    else if (e.empty()) h::eqs(got, plain, "no error was raised for corrupt data, but the bytes differ");
    else h::eqs(e, "inflate error", "outcome for corrupt data");
    h::nontrivial();
    in->close();
    h::eq(in->closed(), true, "closed()");
    std::byte b[4];
    h::eqs(h::raised<Stream_error>([&] { in->read(Mutable_memory_span{b, 4}); }), "expected", "reading a closed stream");
}
// the compressed text ends exactly where a buffer of the stream does
static void edges()
{
    auto t = text(5000);
    for (size_t pad = 0; pad < 3; pad++) {
        auto a = deflated(t, true, 6, false);
        for (size_t r : {a.size(), a.size() - 1, a.size() - 8, a.size() - 9, size_t{1}, size_t{10}}) for (size_t c : {t.size(), t.size() + 1, t.size() - 1, size_t{1}, size_t{2500}}) {
            h::begin("two members of " + std::to_string(t.size()) + " bytes, inner reads of " + std::to_string(r) + ", caller reads of " + std::to_string(c));
            h::Shape s;
            s.reads = {r};
            s.zero_copy = true;
            auto in = make_intrusive<Gzip_inflate_stream>(h::stream(a + a, s));
            std::string got;
            h::eqs(drain(*in, got, {c}, pad == 1), "", "outcome");
            h::eqs(got, t + t, "decompressed bytes");
        }
        t.push_back('x');
    }
}
int main(int argc, char **argv)
{
    set_memory_allocator(std::make_unique<File_backed_memory_allocator>());
    return h::run(argc, argv, [](double end, bool) {
        edges();
        for (int i = 0; i < 6; i++) one(true);
        while (h::now() < end) { for (int i = 0; i < 50; i++) one(false); if (h::coin(10)) one(true); }
    });
}
