// P30: file streams, mappings and pipe channels against a byte string and a
// cursor; the operating system's calls fail or return less when told.
#include "h.h"
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <map>
#include "mlio/data_stores/file.h"
#include "mlio/data_stores/sagemaker_pipe.h"
#include "mlio/memory/file_backed_memory_allocator.h"
#include "mlio/memory/file_mapped_memory_block.h"
#include "mlio/memory/memory_allocator.h"
#include "mlio/streams/file_input_stream.h"
#include "mlio/streams/sagemaker_pipe_input_stream.h"
#include "mlio/streams/stream_error.h"
// the call that fails next, and with what; the largest number of bytes a read returns
static std::string broken;
static int code = EIO;
static size_t most = SIZE_MAX;
static bool fails(const char *what)
{
    if (broken != what) return false;
    broken.clear();
    errno = code;
    return true;
}
extern "C" {
ssize_t read(int fd, void *p, size_t n)
{
    if (fails("read")) return -1;
    return syscall(SYS_read, fd, p, std::min(n, most));
}
off_t lseek(int fd, off_t o, int w) { return fails("lseek") ? -1 : syscall(SYS_lseek, fd, o, w); }
off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
int fstat(int fd, struct stat *s) { return fails("fstat") ? -1 : static_cast<int>(syscall(SYS_fstat, fd, s)); }
int posix_fadvise(int fd, off_t, off_t, int) { return fcntl(fd, F_GETFD) == -1 ? EBADF : fails("fadvise") ? EINVAL : 0; }
}
static int open_files()
{
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
static std::string bytes(size_t n)
{
    std::string r(n, '\0');
    for (auto &c : r) c = static_cast<char>(h::rnd(256));
    return r;
}
// a file without a place in the file system: opened anew through /proc
struct Temp {
    explicit Temp(const std::string &d)
    {
        fd = memfd_create("p30", MFD_CLOEXEC);
        if (!d.empty() && write(fd, d.data(), d.size()) != static_cast<ssize_t>(d.size())) abort();
        path = "/proc/self/fd/" + std::to_string(fd);
    }
    ~Temp() { close(fd); }
    int fd;
    std::string path;
};
template<typename F>
static void refuses(const std::string &what, F &&f)
{
    if (auto r = h::raised<Stream_error>(f); r != "expected") h::fail(what + " of a closed stream raises a stream error; it " + (r.empty() ? "returned" : "raised " + r));
}
template<typename F>
static void os_error(const std::string &what, F &&f)
{
    std::string r = "returned normally";
    try { f(); }
    catch (const std::system_error &e) { r = e.code().value() == code ? "" : "raised an error with another code: " + std::string(e.what()); }
    catch (const std::exception &e) { r = std::string("raised ") + e.what(); }
    if (!r.empty()) h::fail(what + ": a failing system call is reported as it is; it " + r);
    broken.clear();
}
static size_t amount(size_t n) { return h::pick({0, 1, n, n + 1, h::rnd(n + 2), h::rnd(20), h::rnd(9000)}); }
static void script(Input_stream &s, const std::string &d, std::string what, bool faults)
{
    size_t pos = 0;
    bool open = true, any = false;
    for (int i = 0, k = 4 + static_cast<int>(h::rnd(14)); i < k; i++) {
        size_t n = amount(d.size());
        most = faults && h::coin(3) ? 1 + h::rnd(5) : SIZE_MAX;
        std::string lim = most == SIZE_MAX ? "" : " (the system reads at most " + std::to_string(most) + ")";
        bool bad = faults && h::coin(6);
        code = h::coin() ? EIO : EACCES;
        switch (h::rnd(10)) {
        case 0: case 1: case 2: case 3: {
            what += " read " + std::to_string(n) + lim + (bad ? " (fails)" : "") + ","; h::begin(what);
            std::string buf(n + 16, 'x');
            Mutable_memory_span t{reinterpret_cast<std::byte *>(buf.data()) + 8, n};
            if (!open) { refuses("read", [&] { s.read(t); }); break; }
            if (bad && n) { broken = "read"; os_error("read", [&] { s.read(t); }); break; }
            size_t v = s.read(t), w = std::min({n, d.size() - std::min(pos, d.size()), most});
            if (most == SIZE_MAX) h::eq(v, w, "bytes read");
            else if (v < w || v > std::min(n, d.size() - pos)) h::eq(v, w, "bytes read");
            h::eqs(std::string_view{buf}.substr(8, v), std::string_view{d}.substr(pos, v), "the bytes read from position " + std::to_string(pos));
            h::eqs(buf.substr(0, 8) + buf.substr(8 + v), std::string(8 + n - v + 8, 'x'), "the rest of the buffer");
            pos += v;
            any = any || v;
            break;
        }
        case 4: {
            what += " read a block of " + std::to_string(n) + lim + (bad ? " (fails)" : "") + ","; h::begin(what);
            if (!open) { refuses("read", [&] { s.read(n); }); break; }
            if (bad && n) { broken = "read"; os_error("read", [&] { s.read(n); }); break; }
            auto m = s.read(n);
            h::eqs(h::text(m), d.substr(pos, m.size()), "the bytes read from position " + std::to_string(pos));
            if (m.size() < std::min({n, d.size() - pos, most}) || m.size() > n) h::eq(m.size(), std::min({n, d.size() - pos, most}), "bytes read");
            pos += m.size();
            break;
        }
        case 5: case 6:
            if (h::coin(5)) n = SIZE_MAX - h::rnd(3);
            what += " seek " + std::to_string(n) + (bad ? " (fails)" : "") + ","; h::begin(what);
            if (!open) { refuses("seek", [&] { s.seek(n); }); break; }
            if (bad) { broken = "lseek"; os_error("seek", [&] { s.seek(n); }); break; }
            s.seek(n);
            pos = std::min(n, d.size());
            break;
        case 7:
            what += bad ? " size (fails)," : " size,"; h::begin(what);
            if (!open) { refuses("size", [&] { (void)s.size(); }); break; }
            if (bad) {
                // only asked once
                broken = "fstat";
                try { h::eq(s.size(), d.size(), "size"); }
                catch (const std::system_error &e) { if (e.code().value() != code || !broken.empty()) h::fail("size: another error is reported"); broken = "done"; }
                if (broken.empty()) h::fail("size: a failing system call is reported as it is; it returned normally");
                broken.clear();
                break;
            }
            h::eq(s.size(), d.size(), "size");
            break;
        case 8:
            what += bad ? " position (fails)," : " position,"; h::begin(what);
            if (!open) { refuses("position", [&] { (void)s.position(); }); break; }
            if (bad) { broken = "lseek"; os_error("position", [&] { (void)s.position(); }); break; }
            h::eq(s.position(), pos, "position");
            break;
        case 9:
            if (h::coin(3)) { what += " close,"; h::begin(what); s.close(); open = false; }
            if (s.closed() == open) h::fail("closed() is " + std::to_string(s.closed()));
            if (!s.seekable()) h::fail("the stream is seekable");
            break;
        }
        most = SIZE_MAX;
    }
    if (open) {
        what += " position, size,"; h::begin(what);
        h::eq(s.position(), pos, "position");
        h::eq(s.size(), d.size(), "size");
    }
    if (any) h::nontrivial();
}
static std::string content() { return bytes(h::coin(8) ? 0 : h::coin(4) ? 4096 * (1 + h::rnd(3)) + h::rnd(3) - 1 : h::rnd(40)); }
static void files()
{
    auto d = content();
    Temp t{d};
    int before = open_files();
    std::string what = "file stream over a file of " + std::to_string(d.size()) + " bytes " + h::esc(d.substr(0, 40)) + ":";
    h::begin(what);
    if (h::coin(8)) {
        broken = "fadvise";
    }
    {
        File_input_stream s{t.path};
        broken.clear();
        int own = open_files();
        h::eq(own, before + 1, "open files with the stream");
        script(s, d, what, true);
        h::eq(open_files(), s.closed() ? before : before + 1, "open files after the script");
    }
    h::eq(open_files(), before, "open files after the stream is gone");
}
static void stores()
{
    auto d = content();
    Temp t{d};
    bool mm = h::coin();
    int before = open_files();
    std::string what = std::string("file store") + (mm ? " with memory mapping" : "") + " over a file of " + std::to_string(d.size()) + " bytes " + h::esc(d.substr(0, 40)) + ":";
    h::begin(what);
    {
        File f{t.path, mm, h::coin() ? Compression::none : Compression::infer};
        h::eqs(f.id(), t.path, "id()");
        auto a = f.open_read(), b = f.open_read();
        script(*a, d, what, false);
        script(*b, d, what + " (second stream)", false);
    }
    h::eq(open_files(), before, "open files after the store is gone");
}
static void mappings()
{
    auto d = content();
    Temp t{d};
    int before = open_files();
    std::string what = "mapping of a file of " + std::to_string(d.size()) + " bytes " + h::esc(d.substr(0, 40));
    h::begin(what);
    {
        auto b = make_intrusive<File_mapped_memory_block>(t.path);
        h::eq(b->size(), d.size(), "size()");
        h::eqs(std::string_view{reinterpret_cast<const char *>(b->data()), b->size()}, d, "the mapped bytes");
        h::eq(open_files(), before, "open files while mapped");
        Memory_slice m{b};
        b = nullptr;
        h::eqs(h::text(m), d, "the mapped bytes, held by a slice");
        if (!d.empty()) h::nontrivial();
    }
    code = EIO;
    h::begin(what + " when fstat fails");
    broken = "fstat";
    os_error("mapping", [&] { make_intrusive<File_mapped_memory_block>(t.path); });
    h::eq(open_files(), before, "open files after a failure");
    // opened for writing only: it cannot be mapped
    h::begin("mapping and stream of a file that does not exist");
    code = ENOENT;
    os_error("mapping", [&] { make_intrusive<File_mapped_memory_block>("/proc/self/fd/999999"); });
    os_error("stream", [&] { File_input_stream s{"/proc/self/fd/999999"}; });
    h::begin("stream and mapping of a directory (it cannot be read or mapped)");
    code = EISDIR;
    os_error("read", [&] { File_input_stream s{"/proc"}; char c; s.read(Mutable_memory_span{reinterpret_cast<std::byte *>(&c), 1}); });
    h::begin("paths that name no file");
    for (const char *p : {"", "/tmp/", "a\\"}) {
        if (h::raised<std::invalid_argument>([&] { File_input_stream s{p}; }) != "expected") h::fail(std::string("stream: the path ") + p + " is refused");
        if (h::raised<std::invalid_argument>([&] { make_intrusive<File_mapped_memory_block>(p); }) != "expected") h::fail(std::string("mapping: the path ") + p + " is refused");
        if (h::raised<std::invalid_argument>([&] { make_intrusive<File>(p); }) != "expected") h::fail(std::string("store: the path ") + p + " is refused");
    }
    h::eq(open_files(), before, "open files after the failures");
}
static std::string dir;
static void pipes()
{
    static int chan = 0;
    std::string path = dir + "/c" + std::to_string(chan++);
    int before = open_files();
    std::string what = "pipe channel:";
    h::begin(what);
    {
        Sagemaker_pipe p{path, std::chrono::seconds{0}, h::coin() ? std::optional<size_t>{} : std::optional<size_t>{0}, Compression::none};
        for (int e = 0; e < 3; e++) {
            auto fifo = path + "_" + std::to_string(e);
            if (mkfifo(fifo.c_str(), 0600)) abort();
            int w = open(fifo.c_str(), O_RDWR | O_CLOEXEC);
            auto d = bytes(1 + h::rnd(h::coin() ? 10 : 9000)), later = bytes(h::rnd(30));
            what += " epoch " + std::to_string(e) + " of " + std::to_string(d.size()) + "+" + std::to_string(later.size()) + " bytes,"; h::begin(what);
            if (write(w, d.data(), d.size()) != static_cast<ssize_t>(d.size())) abort();
            auto s = p.open_read();
            if (s->closed()) h::fail("a new stream is open");
            unlink(fifo.c_str());
            {
                // nobody else gets the channel meanwhile
                std::string r = "it was opened twice";
                try { make_sagemaker_pipe_input_stream(path, std::chrono::seconds{0}); } catch (const std::system_error &x) { r = x.code() == std::errc::permission_denied ? "" : x.what(); }
                if (!r.empty()) h::fail("a channel that is open is refused; " + r);
            }
            std::string got;
            auto get = [&](size_t limit) {
                while (got.size() < limit) {
                    size_t n = std::min(limit - got.size(), 1 + h::rnd(h::coin() ? 5 : 5000));
                    if (h::coin(8)) { code = EIO; broken = "read"; os_error("read", [&] { s->read(n); }); }
                    auto m = s->read(n);
                    if (m.empty()) h::fail("the end is reported after " + std::to_string(got.size()) + " of " + std::to_string(limit) + " bytes");
                    got += h::text(m);
                }
            };
            get(d.size());
            // no data, but there may be more: not an end
            code = ETIMEDOUT;
            os_error("read of an empty pipe that is still being written", [&] { s->read(4); });
            if (!later.empty() && write(w, later.data(), later.size()) != static_cast<ssize_t>(later.size())) abort();
            get(d.size() + later.size());
            h::eqs(got, d + later, "the bytes of the pipe");
            h::eq(s->read(0).size(), size_t{0}, "bytes read of none requested");
            close(w);
            for (int i = 0; i < 2; i++) h::eq(s->read(1 + h::rnd(9)).size(), size_t{0}, "bytes read at the end");
            auto keep = s;
            if (h::coin()) {
                s->close();
                if (!s->closed()) h::fail("the stream is closed");
                refuses("read", [&] { s->read(3); });
                if (h::coin()) s->close();
            }
            else if (h::coin()) { keep = nullptr; s = nullptr; }
            else { s->close(); s = nullptr; }
            h::eq(open_files(), before, "open files after the stream is closed");
            h::nontrivial();
        }
    }
    if (h::coin(4)) {
        h::begin("a pipe channel that nobody writes to");
        auto q = path + "x";
        if (mkfifo((q + "_3").c_str(), 0600)) abort();
        int w = open((q + "_3").c_str(), O_RDWR | O_CLOEXEC);
        code = ETIMEDOUT;
        os_error("opening", [&] { make_sagemaker_pipe_input_stream(q, std::chrono::seconds{0}, 3); });
        close(w);
        unlink((q + "_3").c_str());
        h::eq(open_files(), before, "open files after the failure");
    }
}
int main(int argc, char **argv)
{
    set_memory_allocator(std::make_unique<File_backed_memory_allocator>(1 << 20));
    char name[] = "/tmp/p30XXXXXX";
    dir = mkdtemp(name);
    int r = h::run(argc, argv, [](double end, bool) {
        while (h::now() < end) {
            for (int i = 0; i < 20; i++) { files(); stores(); mappings(); }
            pipes();
        }
    });
    (void)!system(("rm -rf " + dir).c_str());
    return r;
}
