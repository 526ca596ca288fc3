// P29: examples of the image reader.  Random images are encoded without loss,
// read through the real reader, and compared pixel by pixel with the centred
// crop (of the resized image) computed here.
#include <opencv2/imgcodecs.hpp>
#include <opencv2/imgproc/imgproc.hpp>

#include "h.h"
#include "mlio/data_reader_error.h"
#include "mlio/data_stores/in_memory_store.h"
#include "mlio/example.h"
#include "mlio/image_reader.h"
#include "mlio/memory/file_backed_memory_allocator.h"
#include "mlio/memory/memory_allocator.h"
#include "mlio/schema.h"
#include "mlio/tensor.h"
#include "mlio/tensor_visitor.h"

struct Img {
    std::string bytes;  // as in the store, without frame
    std::string what;
    std::optional<cv::Mat> want;  // the row, if the image is good
    bool channels = false;        // no alpha channel where four are asked for
};
static std::string record(const std::string &p)
{
    std::string r;
    auto u32 = [&](uint32_t v) { r.append(reinterpret_cast<const char *>(&v), 4); };
    u32(0xced7230a);
    u32(static_cast<uint32_t>(p.size()));
    r += p;
    while (r.size() % 4) r += '\0';
    return r;
}
static void one()
{
    Image_reader_params ip;
    Data_reader_params d;
    size_t ch = h::pick({1, 3, 3, 4}), H = 1 + h::rnd(h::pick({3, 12})), W = 1 + h::rnd(h::pick({3, 12}));
    ip.image_dimensions = {ch, H, W};
    ip.to_rgb = h::coin();
    if (h::coin()) ip.resize = h::coin(12) ? 0 : h::coin(15) ? h::pick({1UL << 31, 1UL << 32, (1UL << 32) + 5, 0x7fffffff, ~0UL, 715827883UL}) : 1 + h::rnd(14);
    ip.image_frame = h::coin() ? Image_frame::recordio : Image_frame::none;
    d.batch_size = h::pick({1, 2, 3, 5});
    d.num_prefetched_examples = 1 + h::rnd(3);
    d.last_example_handling = static_cast<Last_example_handling>(h::rnd(5));
    d.bad_example_handling = static_cast<Bad_example_handling>(h::rnd(5));
    d.warn_bad_instances = h::coin(3);
    size_t n = 1 + h::rnd(7);
    std::vector<Img> imgs;
    std::string what = "frame " + std::to_string(static_cast<int>(ip.image_frame)) + ", dimensions " + std::to_string(ch) + "x" + std::to_string(H) + "x" + std::to_string(W) + ", to_rgb " + std::to_string(ip.to_rgb) + ", resize " + (ip.resize ? std::to_string(*ip.resize) : "none") + ", batches of " + std::to_string(d.batch_size) + ", last " + std::to_string(static_cast<int>(d.last_example_handling)) + ", bad " + std::to_string(static_cast<int>(d.bad_example_handling)) + ", warn " + std::to_string(d.warn_bad_instances) + ", images";
    for (size_t i = 0; i < n; i++) {
        Img m;
        int kind = h::coin(5) ? static_cast<int>(h::rnd(5)) : 9;
        int cols = static_cast<int>(1 + h::rnd(14)), rows = static_cast<int>(1 + h::rnd(14)), c = ch == 4 ? 4 : static_cast<int>(h::pick({1, 3, 3, 4}));
        if (kind != 4 && !h::coin(4)) { cols += static_cast<int>(W); rows += static_cast<int>(H); }
        if (kind == 3 && ch == 4) { c = static_cast<int>(h::pick({1, 3})); }
        bool deep = kind == 4;
        cv::Mat src(rows, cols, deep ? CV_16UC(c) : CV_8UC(c));
        for (int y = 0; y < rows; y++)
            for (size_t x = 0; x < static_cast<size_t>(cols) * static_cast<size_t>(c) * (deep ? 2 : 1); x++) src.ptr<uint8_t>(y)[x] = static_cast<uint8_t>(h::rnd());
        std::vector<uint8_t> enc;
        cv::imencode(h::coin(6) && c != 4 && !deep ? ".bmp" : ".png", src, enc);
        m.bytes.assign(enc.begin(), enc.end());
        m.what = std::to_string(c) + "x" + std::to_string(rows) + "x" + std::to_string(cols) + (deep ? " 16-bit" : "");
        if (kind == 0) { m.bytes = ""; m.what = "empty"; }
        if (kind == 1) { m.bytes = h::letters("abc\x89PNG", 1 + h::rnd(40)); m.what = h::esc(m.bytes); }
        if (kind == 2) { m.bytes.resize(h::rnd(30)); m.what += " cut to " + std::to_string(m.bytes.size()) + " bytes"; }
        // what it decodes to
        cv::Mat img;
        try {
            if (!m.bytes.empty()) img = cv::imdecode(std::vector<uint8_t>(m.bytes.begin(), m.bytes.end()), ch == 1 ? cv::IMREAD_GRAYSCALE : ch == 3 ? cv::IMREAD_COLOR : cv::IMREAD_UNCHANGED);
        }
        catch (const cv::Exception &) {}
        bool ok = !img.empty();
        if (ok && ch == 4 && img.channels() != 4) { m.channels = true; ok = false; }
        if (ok && img.depth() != CV_8U) ok = false;
        if (ok && ip.resize) {
            // the shorter edge gets the given size, the other keeps the ratio
            __int128 s = static_cast<__int128>(*ip.resize), w = img.rows > img.cols ? s : s * img.cols / img.rows, hh = img.rows > img.cols ? s * img.rows / img.cols : s;
            if (s == 0 || s > 1 << 20 || w * hh > 1 << 24) ok = false;
            else { cv::Mat t; cv::resize(img, t, cv::Size(static_cast<int>(w), static_cast<int>(hh))); img = t; }
        }
        if (ok && (img.rows < static_cast<int>(H) || img.cols < static_cast<int>(W))) ok = false;
        if (ok) {
            int y0 = (img.rows - static_cast<int>(H)) / 2, x0 = (img.cols - static_cast<int>(W)) / 2, C = static_cast<int>(ch);
            cv::Mat r(static_cast<int>(H), static_cast<int>(W), CV_8UC(C));
            for (int y = 0; y < r.rows; y++)
                for (int x = 0; x < r.cols; x++)
                    for (int k = 0; k < C; k++) r.ptr<uint8_t>(y)[x * C + k] = img.ptr<uint8_t>(y0 + y)[(x0 + x) * C + (ip.to_rgb && k < 3 && C > 1 ? 2 - k : k)];
            m.want = r;
        }
        what += " " + m.what;
        // MXNet: flag, label and two identifiers before the image
        if (ip.image_frame == Image_frame::recordio) { if (kind == 0 && h::coin()) m.bytes.assign(h::rnd(24), 'x'), m.what = "short record"; else m.bytes.insert(0, h::letters("01", 24)); }
        imgs.push_back(m);
    }
    h::begin(what);
    std::string file;
    size_t stores = 0;
    auto add = [&](const std::string &f) { d.dataset.push_back(make_intrusive<In_memory_store>(h::slice(f))); stores++; };
    if (ip.image_frame == Image_frame::recordio) {
        for (size_t i = 0; i < n; i++) { file += record(imgs[i].bytes); if (h::coin(3) || i + 1 == n) { add(file); file.clear(); } }
    }
    else for (auto &m : imgs) add(m.bytes);
    auto reader = make_intrusive<Image_reader>(d, ip);
    auto schema = reader->read_schema();
    CHECK(schema && schema->attributes().size() == 1, "one attribute");
    CHECK(schema->attributes()[0].name() == "value" && schema->attributes()[0].data_type() == Data_type::uint8 && (schema->attributes()[0].shape() == Size_vector{d.batch_size, H, W, ch}), "the attribute");
    size_t bytes = H * W * ch;
    struct Want { size_t size, good; std::string data; };
    std::vector<Want> want;
    bool pads = d.bad_example_handling == Bad_example_handling::pad || d.bad_example_handling == Bad_example_handling::pad_warn, error = false;
    for (size_t b = 0; b < n && !error; b += d.batch_size) {
        size_t k = std::min(d.batch_size, n - b);
        bool last = k < d.batch_size, drop = d.last_example_handling == Last_example_handling::drop || d.last_example_handling == Last_example_handling::drop_warn, fill = d.last_example_handling == Last_example_handling::pad || d.last_example_handling == Last_example_handling::pad_warn;
        if (last && drop) break;
        Want w{last && !fill ? k : d.batch_size, 0, {}};
        bool bad = false;
        for (size_t i = b; i < b + k && !error; i++) {
            if (imgs[i].want) { w.good++; w.data.append(reinterpret_cast<const char *>(imgs[i].want->data), bytes); continue; }
            if (imgs[i].channels || d.bad_example_handling == Bad_example_handling::error) error = true;
            if (!pads && !error) { bad = true; break; }
            bad = true;
        }
        if (error) break;
        if (bad && !pads) continue;
        w.data.resize(w.size * bytes, '\0');
        want.push_back(w);
    }
    if (want.size() > 1) h::nontrivial();
    for (int round = 0; round < (h::coin(3) ? 2 : 1); round++) {
        if (round) reader->reset();
        size_t k = 0;
        bool failed = false;
        try {
            for (;; k++) {
                auto e = h::coin(4) ? (reader->peek_example(), reader->read_example()) : reader->read_example();
                if (!e) break;
                CHECK(k < want.size(), "an example more than the expected " + std::to_string(want.size()));
                auto &w = want[k];
                std::string at = "example " + std::to_string(k);
                h::eq(e->features().size(), 1UL, at + " features");
                h::eq(e->padding, w.size - w.good, at + " padding");
                auto t = static_cast<Dense_tensor *>(e->features()[0].get());
                CHECK((t->shape() == Size_vector{w.size, H, W, ch} && t->data_type() == Data_type::uint8), at + " shape");
                h::eq(t->data().size(), w.data.size(), at + " bytes");
                auto s = t->data().as<std::uint8_t>();
                for (size_t i = 0; i < w.data.size(); i++)
                    if (s[i] != static_cast<uint8_t>(w.data[i])) h::fail(at + " image " + std::to_string(i / bytes) + " row " + std::to_string(i % bytes / (W * ch)) + " column " + std::to_string(i % (W * ch) / ch) + " channel " + std::to_string(i % ch) + ": expected " + std::to_string(static_cast<uint8_t>(w.data[i])) + ", got " + std::to_string(s[i]));
            }
        }
        catch (const Invalid_instance_error &x) { failed = true; CHECK(error, std::string("unexpected error ") + x.what()); }
        catch (const std::invalid_argument &x) { failed = true; CHECK(error, std::string("unexpected error ") + x.what()); }
        catch (const std::exception &x) { h::fail(std::string("unexpected error ") + x.what()); }
        CHECK(failed == error, "a bad image is an error");
        if (!error) h::eq(k, want.size(), "number of examples");
    }
}
int main(int argc, char **argv)
{
    set_memory_allocator(std::make_unique<File_backed_memory_allocator>());
    cv::setNumThreads(1);
    return h::run(argc, argv, [](double deadline, bool) {
        while (h::now() < deadline) one();
    });
}
