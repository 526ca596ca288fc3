// Shared helpers of the replay / bounded stand-in harnesses.  They drive the
// real, unmodified library built from the current tree.
#pragma once
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <vector>
#include "mlio/data_stores/data_store.h"
#include "mlio/intrusive_ptr.h"
#include "mlio/logging.h"
#include "mlio/memory/heap_memory_block.h"
#include "mlio/memory/memory_slice.h"
#include "mlio/span.h"
#include "mlio/streams/input_stream.h"

using namespace mlio;

namespace h {
struct Shared {
    volatile long cases, nontrivial;
    volatile int failed;
    volatile double t0;
    char cur[1 << 16];
    char msg[1 << 16];
    char known[1 << 14];
    int nsamples;
    char samples[8][512];
};
inline Shared *S;
inline uint64_t rs = 1;
inline uint64_t rnd()
{
    uint64_t z = (rs += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline size_t rnd(size_t n) { return n ? rnd() % n : 0; }
inline bool coin(int n = 2) { return rnd(static_cast<size_t>(n)) == 0; }
template<typename T>
const T &pick(const std::vector<T> &v) { return v[rnd(v.size())]; }
inline size_t pick(std::initializer_list<size_t> v) { return *(v.begin() + rnd(v.size())); }

inline std::string esc(std::string_view s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '\n') r += "\\n";
        else if (c == '\r') r += "\\r";
        else if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); r += b; }
        else r += static_cast<char>(c);
        if (r.size() > 3000) { r += "...(" + std::to_string(s.size()) + " bytes)"; break; }
    }
    return r + "\"";
}
inline std::string str(const std::vector<std::string> &v)
{
    std::string r = "[";
    for (auto &s : v) { r += esc(s) + ", "; if (r.size() > 6000) { r += "..."; break; } }
    return r + "] (" + std::to_string(v.size()) + ")";
}
inline double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
// starts a case: what is being run, in words that allow rerunning it by hand
inline void begin(const std::string &what)
{
    size_t n = std::min(what.size(), sizeof(S->cur) - 1);
    memcpy(S->cur, what.data(), n);
    S->cur[n] = 0;
    S->cases = S->cases + 1;
    S->t0 = now();
}
inline void nontrivial()
{
    S->nontrivial = S->nontrivial + 1;
    long k = S->nontrivial;
    if (S->nsamples < 8 && (k == 1 || k % 97 == 0)) { strncpy(S->samples[S->nsamples], S->cur, 511); S->nsamples++; }
}
[[noreturn]] inline void fail(const std::string &m)
{
    size_t n = std::min(m.size(), sizeof(S->msg) - 1);
    memcpy(S->msg, m.data(), n);
    S->msg[n] = 0;
    S->failed = 1;
    _exit(9);
}
// a listed finding is reported, not a violation
inline bool known(const std::string &key)
{
    const char *k = getenv("MLIO_KNOWN");
    if (!k || (std::string(",") + k + ",").find("," + key + ",") == std::string::npos) return false;
    if (!strstr(S->known, (key + "\n").c_str())) strncat(S->known, (key + "\n").c_str(), sizeof(S->known) - strlen(S->known) - 1);
    return true;
}
inline void check(bool ok, const std::string &m) { if (!ok) fail(m); }
#define LIT(s) std::string(s, sizeof(s) - 1)
#define CHECK(c, msg) do { if (!(c)) h::fail(std::string(#c) + ": " + (msg)); } while (0)
template<typename A, typename B>
void eq(const A &a, const B &b, const std::string &what)
{
    if (!(a == b)) fail(what + ": expected " + std::to_string(b) + ", got " + std::to_string(a));
}
inline void eqs(std::string_view a, std::string_view b, const std::string &what)
{
    if (a != b) fail(what + ": expected " + esc(b) + ", got " + esc(a));
}
inline void eqv(const std::vector<std::string> &a, const std::vector<std::string> &b, const std::string &what)
{
    if (a != b) fail(what + ": expected " + str(b) + ", got " + str(a));
}
template<typename F>
bool throws(F &&f)
{
    try { f(); } catch (const std::exception &) { return true; }
    return false;
}
// kind of exception thrown: "" none
template<typename E, typename F>
std::string raised(F &&f)
{
    try { f(); } catch (const E &) { return "expected"; } catch (const std::exception &e) { return std::string("other: ") + e.what(); }
    return "";
}

// runs the body in a child; crashes and hangs are failures of the current case
inline int run(int argc, char **argv, std::function<void(double deadline, bool thorough)> body)
{
    uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
    double secs = argc > 2 ? atof(argv[2]) : 10;
    bool thorough = argc > 3 && std::string(argv[3]) == "thorough";
    S = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    S->t0 = now();
    pid_t p = fork();
    if (p == 0) {
        rs = seed * 7919 + 13;
        set_log_level(Log_level::off);
        try { body(now() + secs, thorough); }
        catch (const std::exception &e) { fail(std::string("unexpected exception: ") + e.what()); }
        _exit(0);
    }
    int st = 0;
    bool hang = false;
    while (waitpid(p, &st, WNOHANG) == 0) {
        usleep(20000);
        if (now() - S->t0 > 60) { hang = true; kill(p, SIGKILL); waitpid(p, &st, 0); break; }
    }
    printf("CASES %ld\nNONTRIVIAL %ld\n", S->cases, S->nontrivial);
    for (int i = 0; i < S->nsamples; i++) {
        for (char *c = S->samples[i]; *c; c++) if (*c == '\n') *c = ' ';
        printf("SAMPLE %s\n", S->samples[i]);
    }
    if (S->known[0]) printf("KNOWN %s", S->known);
    if (S->failed) { printf("FAIL %s\nCASE %s\n", S->msg, S->cur); return 1; }
    if (hang) { printf("FAIL the call did not return within 60 s\nCASE %s\n", S->cur); return 1; }
    if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) { printf("FAIL the library crashed (status %d; memory error reports are above)\nCASE %s\n", st, S->cur); return 1; }
    return 0;
}

// ---- inputs
inline Memory_slice slice(std::string_view s)
{
    // an exactly sized heap block, so that a byte beyond it is a detected error
    auto b = wrap_intrusive(new Heap_memory_block{s.size()});
    if (!s.empty()) memcpy(b->data(), s.data(), s.size());
    return Memory_slice{b};
}
inline std::string text(const Memory_slice &m)
{
    return std::string(reinterpret_cast<const char *>(m.data()), m.size());
}
struct Shape {
    bool seekable = true, zero_copy = false;
    std::vector<size_t> reads{};  // sizes of successive reads, cyclic; empty: whatever is asked
};
// a stream over given bytes whose reads are as short as told
class Chunky final : public Input_stream {
public:
    Chunky(std::string d, Shape s) : d_{std::move(d)}, s_{std::move(s)}, m_{slice(d_)} {}
    using Input_stream::read;
    size_t read(Mutable_memory_span dst) override
    {
        size_t n = std::min(dst.size(), d_.size() - pos_);
        if (!s_.reads.empty() && n) n = std::min(n, std::max<size_t>(1, s_.reads[k_++ % s_.reads.size()]));
        if (n) memcpy(dst.data(), d_.data() + pos_, n);
        pos_ += n;
        total += n;
        return n;
    }
    Memory_slice read(size_t size) override
    {
        if (s_.zero_copy) {
            size_t n = std::min(size, d_.size() - pos_);
            if (!s_.reads.empty() && n) n = std::min(n, std::max<size_t>(1, s_.reads[k_++ % s_.reads.size()]));
            auto r = m_.subslice(pos_, n);
            pos_ += n;
            total += n;
            return r;
        }
        auto b = wrap_intrusive(new Heap_memory_block{size});
        size_t n = read(Mutable_memory_span{*b});
        return Memory_slice{b}.first(n);
    }
    void seek(size_t p) override { pos_ = std::min(p, d_.size()); }
    void close() noexcept override { closed_ = true; }
    size_t size() const override { return d_.size(); }
    size_t position() const override { return pos_; }
    bool closed() const noexcept override { return closed_; }
    bool seekable() const noexcept override { return s_.seekable; }
    bool supports_zero_copy() const noexcept override { return s_.zero_copy; }
    size_t total = 0;
private:
    std::string d_;
    Shape s_;
    Memory_slice m_;
    size_t pos_ = 0, k_ = 0;
    bool closed_ = false;
};
inline Intrusive_ptr<Input_stream> stream(const std::string &d, Shape s = {})
{
    return wrap_intrusive(static_cast<Input_stream *>(new Chunky{d, std::move(s)}));
}
class Store final : public Data_store {
public:
    Store(std::string id, std::string d, Shape s = {}) : id_{std::move(id)}, d_{std::move(d)}, s_{std::move(s)} {}
    Intrusive_ptr<Input_stream> open_read() const override { opened++; return stream(d_, s_); }
    std::string repr() const override { return id_; }
    const std::string &id() const override { return id_; }
    mutable std::atomic<int> opened{0};
private:
    std::string id_, d_;
    Shape s_;
};
inline Intrusive_ptr<Data_store> store(std::string id, std::string d, Shape s = {})
{
    return wrap_intrusive(static_cast<Data_store *>(new Store{std::move(id), std::move(d), std::move(s)}));
}
inline Shape shape()
{
    Shape s;
    s.seekable = coin();
    s.zero_copy = coin(4);
    if (s.zero_copy) s.seekable = true;
    else if (!coin(3)) for (size_t i = 0, n = 1 + rnd(4); i < n; i++) s.reads.push_back(1 + rnd(coin() ? 3 : 9));
    return s;
}
inline std::string describe(const Shape &s)
{
    std::string r = std::string(s.seekable ? "seekable" : "non-seekable") + (s.zero_copy ? " zero-copy" : "") + " stream, reads of [";
    for (auto n : s.reads) r += std::to_string(n) + " ";
    return r + "]";
}
inline std::string letters(const std::string &alphabet, size_t n)
{
    std::string r;
    for (size_t i = 0; i < n; i++) r += alphabet[rnd(alphabet.size())];
    return r;
}
// all strings over the alphabet up to the given length
inline void strings(const std::string &alphabet, size_t max, const std::function<void(const std::string &)> &f)
{
    std::string s;
    std::function<void()> go = [&] {
        f(s);
        if (s.size() == max) return;
        for (char c : alphabet) { s.push_back(c); go(); s.pop_back(); }
    };
    go();
}
}  // namespace h
