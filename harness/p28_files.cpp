// P28: files read as lines and as text, and access checks, against their bytes, owners and modes.
#include <vf.hpp>
#include <atomic>
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <map>
#include <memory>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <cpp_utils/exception/PreconditionNotMet.hpp>
#include <cpp_utils/file/file_utils.hpp>
#include <cpp_utils/utils.hpp>

using namespace eprosima::utils;
using S = std::string;
using vf::show;
extern char** environ;

// Read failures: from the given read of this thread on, with the given error (EINTR: once); short: never more bytes than that
static thread_local int t_fail_at = -1, t_err = 0, t_reads = 0, t_short = 0;
static thread_local bool t_failed = false;
extern "C" ssize_t read(int fd, void* b, size_t n)
{
    if (t_fail_at >= 0 && t_reads++ >= t_fail_at)
    {
        if (t_err == EINTR) t_fail_at = -1;
        else t_failed = true;
        errno = t_err;
        return -1;
    }
    if (t_short && n > static_cast<size_t>(t_short)) n = t_short;
    return syscall(SYS_read, fd, b, n);
}

S g_dir;
void put(const S& path, const S& data)
{
    int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    for (size_t i = 0; i < data.size();)
    {
        ssize_t n = write(fd, data.data() + i, data.size() - i);
        if (n <= 0) break;
        i += n;
    }
    close(fd);
}
std::vector<S> lines(const S& data, bool strip, bool strip_empty)
{
    std::vector<S> v;
    size_t i = 0;
    while (i < data.size())
    {
        S l;
        while (i < data.size() && data[i] != '\n')
        {
            if (!(strip && data[i] == '\r')) l += data[i];
            ++i;
        }
        ++i;
        if (!(strip_empty && l.empty())) v.push_back(l);
    }
    return v;
}
S content(vf::Rng& r)
{
    static const std::vector<size_t> sizes{0, 1, 2, 8190, 8191, 8192, 8193, 16382, 16384, 4096, 65536};
    S s;
    switch (r.below(6))
    {
        case 0: s = r.bytes(r.below(300)); break;
        case 1: s = S(r.pick(sizes), 'a'); if (r.chance(50) && !s.empty()) s[r.below(s.size())] = '\n'; break;
        case 2:
            while (s.size() < 9000) s += S(r.below(3000), 'b') + (r.chance(50) ? "\r\n" : "\n");
            s.resize(r.pick(sizes) < s.size() ? s.size() : s.size());
            break;
        default:
            s = r.from(r.chance(50) ? S("a\n\r") : S("ab\n\r\0 \xc3\xb1\xff", 9), r.below(60));
    }
    if (r.chance(5)) s = "\xef\xbb\xbf" + s;
    if (r.chance(10)) s.insert(r.below(s.size() + 1), S(r.pick(sizes), 'z'));
    if (r.chance(30)) s += r.chance(50) ? "\n" : "\r";
    return s;
}
size_t open_files()
{
    size_t n = 0;
    DIR* d = opendir("/proc/self/fd");
    while (readdir(d)) ++n;
    closedir(d);
    return n;
}

template <class F> S outcome(F f)
{
    try { f(); return ""; }
    catch (const PreconditionNotMet&) { return "PreconditionNotMet"; }
    catch (const std::exception& e) { return S("exception ") + e.what(); }
    catch (...) { return "unknown exception"; }
}
void compare(const S& path, const S& data, const S& what)
{
    for (int o = 0; o < 4; ++o)
    {
        bool strip = o & 1, empty = o & 2;
        auto want = lines(data, strip, empty);
        std::vector<S> got;
        S x = outcome([&]{ got = file_to_strings(path.c_str(), strip, empty); });
        VF_CHECK(x == "", "refused", "file_to_strings of " << what << " threw " << x);
        size_t i = 0;
        while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
        VF_CHECK(x != "" || got == want, "lines-differ", "file_to_strings(strip " << strip << ", strip empty lines " << empty << ") of " << what << " gave " << got.size() << " lines instead of " << want.size() << ", line "
                         << i << " is " << (i < got.size() ? show(got[i].substr(0, 80)) : S("missing")) << " instead of " << (i < want.size() ? show(want[i].substr(0, 80)) : S("none")));
    }
    for (int o = 0; o < 2; ++o)
    {
        S want, got;
        for (auto& l : lines(data, o, false)) want += l + "\n";
        S x = outcome([&]{ got = file_to_string(path.c_str(), o); });
        VF_CHECK(x == "" && got == want, "text-differs", "file_to_string(strip " << o << ") of " << what << " gave " << got.size() << " bytes instead of " << want.size() << " " << x);
    }
    if (data.find('\r') == S::npos && (data.empty() || data.back() == '\n')) VF_CHECK(file_to_string(path.c_str()) == data, "text-differs", "text of " << what);
    vf::count("steps", 6);
    vf::seen("sequences", vf::hash_str(data));
}

void reading(vf::Rng& r)
{
    size_t files = open_files();
    for (int i = 0; i < 15; ++i)
    {
        S path = g_dir + "/" + (r.chance(80) ? S("f") : S("a b\xc3\xb1")) + std::to_string(syscall(SYS_gettid));
        S data = content(r);
        put(path, data);
        if (r.chance(30)) { t_short = 1 + r.below(r.chance(50) ? 5 : 9000); vf::count("short_reads"); }
        if (r.chance(10)) { t_fail_at = r.below(3); t_reads = 0; t_err = EINTR; vf::count("interrupted_reads"); }
        compare(path, data, "a file with " + (data.size() < 100 ? show(data) : std::to_string(data.size()) + " bytes"));
        t_short = 0;
        t_fail_at = -1;
        unlink(path.c_str());
    }
    // A line of some megabytes
    if (r.chance(10))
    {
        S path = g_dir + "/big" + std::to_string(syscall(SYS_gettid));
        S data = S(1000000 + r.below(3000000), 'x') + "\n" + r.from("ab\n", 200000);
        put(path, data);
        compare(path, data, "a big file");
        unlink(path.c_str());
    }
    // From a pipe, in pieces
    S fifo = g_dir + "/fifo" + std::to_string(syscall(SYS_gettid));
    if (mkfifo(fifo.c_str(), 0600) == 0)
    {
        S data = content(r);
        uint64_t seed = r.next();
        std::thread w([&]{
                    vf::Rng q(seed);
                    int fd = open(fifo.c_str(), O_WRONLY);
                    for (size_t k = 0; k < data.size();)
                    {
                        size_t n = std::min<size_t>(1 + q.below(5000), data.size() - k);
                        ssize_t m = write(fd, data.data() + k, n);
                        if (m <= 0) break;
                        k += m;
                        if (q.chance(20)) std::this_thread::yield();
                    }
                    close(fd);
                });
        auto got = file_to_strings(fifo.c_str(), false, false);
        w.join();
        VF_CHECK(got == lines(data, false, false), "lines-differ", "a pipe with " << data.size() << " bytes gave " << got.size() << " lines");
        unlink(fifo.c_str());
        vf::count("steps");
    }
    size_t now = open_files();
    VF_CHECK(now == files, "files-left-open", files << " files were open, and now " << now);
}

void failing(vf::Rng& r)
{
    size_t files = open_files();
    S d = g_dir + "/d" + std::to_string(syscall(SYS_gettid));
    mkdir(d.c_str(), 0700);
    put(d + "/f", "a\n");
    symlink("nowhere", (d + "/dangling").c_str());
    symlink("loop", (d + "/loop").c_str());
    std::vector<S> bad{d + "/none", d + "/", d, "", d + "/f/", d + "/f/g", d + "/none/f", d + "/dangling", d + "/loop", d + "/" + S(300, 'n'), S(5000, '/') + "x", d + "/f ", "/"};
    for (auto& p : bad)
    {
        bool b = r.chance(50);
        S x = outcome([&]{ file_to_strings(p.c_str(), b, r.chance(50)); });
        VF_CHECK(x == "PreconditionNotMet", "unreadable-not-reported", "file_to_strings(" << show(p.substr(0, 100)) << ") gave " << (x == "" ? "a result" : x));
        x = outcome([&]{ file_to_string(p.c_str(), b); });
        VF_CHECK(x == "PreconditionNotMet", "unreadable-not-reported", "file_to_string(" << show(p.substr(0, 100)) << ") gave " << (x == "" ? "a result" : x));
        vf::count("steps", 2);
    }
    // Read errors in the middle
    for (int i = 0; i < 6; ++i)
    {
        S data = content(r);
        put(d + "/e", data);
        t_short = r.chance(70) ? 1 + r.below(200) : 0;
        t_fail_at = r.below(4);
        t_reads = 0;
        t_err = r.chance(50) ? EIO : EISDIR;
        t_failed = false;
        S x = outcome([&]{ if (i & 1) file_to_strings((d + "/e").c_str()); else file_to_string((d + "/e").c_str()); });
        t_short = 0;
        t_fail_at = -1;
        if (t_failed)
        {
            VF_CHECK(x == "PreconditionNotMet", "read-error-not-reported", "a read error in a file of " << data.size() << " bytes gave " << (x == "" ? "a result" : x));
            vf::count("read_errors");
        }
        vf::count("steps");
    }
    for (auto n : {"/f", "/e", "/dangling", "/loop"}) unlink((d + n).c_str());
    rmdir(d.c_str());
    size_t now = open_files();
    VF_CHECK(now == files, "files-left-open", files << " files were open, and now " << now);
}

// ---------------------------------------------------------------- access
struct User { uid_t uid; gid_t gid; std::vector<gid_t> groups; };
const User USERS[] = {{54321, 54321, {}}, {54322, 54321, {54323}}, {54323, 54322, {54321, 54324}}, {54324, 54324, {54322, 54323, 54325}}};
struct As
{
    bool ok = true;
    As(const User* u)
    {
        if (!u) return;
        std::vector<gid_t> g = u->groups;
        ok = syscall(SYS_setgroups, g.size(), g.data()) == 0 && syscall(SYS_setresgid, u->gid, u->gid, 0) == 0 && syscall(SYS_setresuid, u->uid, u->uid, 0) == 0;
    }
    ~As()
    {
        syscall(SYS_setresuid, 0, 0, 0);
        syscall(SYS_setresgid, 0, 0, 0);
        syscall(SYS_setgroups, 0, nullptr);
    }
};
struct Node { S path; int mode; uid_t uid; gid_t gid; bool dir; };
int bits(const Node& n, const User& u)
{
    if (n.uid == u.uid) return n.mode >> 6 & 7;
    bool in = n.gid == u.gid;
    for (gid_t g : u.groups) in = in || g == n.gid;
    return in ? n.mode >> 3 & 7 : n.mode & 7;
}
int try_it(const S& p, bool dir)
{
    int got = 0, fd;
    if ((fd = open(p.c_str(), O_RDONLY | O_NONBLOCK | O_CLOEXEC)) >= 0) { got |= 4; close(fd); }
    if (!dir)
    {
        if ((fd = open(p.c_str(), O_WRONLY | O_NONBLOCK | O_CLOEXEC)) >= 0) { got |= 2; close(fd); }
        char* argv[] = {const_cast<char*>(p.c_str()), nullptr};
        pid_t c;
        if (posix_spawn(&c, p.c_str(), nullptr, nullptr, argv, environ) == 0)
        {
            int st;
            waitpid(c, &st, 0);
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 127)) got |= 1;
        }
    }
    return got;
}
S mode_str(int m)
{
    S s;
    for (int i = 8; i >= 0; --i) s += m >> i & 1 ? "xwr"[i % 3] : '-';
    return s;
}
bool g_users = true;
void access_checks(vf::Rng& r)
{
    S d = g_dir + "/t" + std::to_string(syscall(SYS_gettid));
    mkdir(d.c_str(), 0755);
    chmod(d.c_str(), 0755);
    auto own = [&](Node& n)
            {
                const User& o = USERS[r.below(4)];
                n.uid = r.chance(20) ? 0 : o.uid;
                n.gid = r.chance(20) ? 0 : USERS[r.below(4)].gid;
                n.mode = r.chance(30) ? static_cast<int>(r.below(2)) * 0777 : static_cast<int>(r.below(512));
                if (chown(n.path.c_str(), n.uid, n.gid) != 0) { n.uid = geteuid(); n.gid = getegid(); g_users = false; }
                if (r.chance(50)) n.mode |= 0111 * n.dir;             // directories that can be entered by all, often
                chmod(n.path.c_str(), n.mode);
            };
    Node sub{d + "/sub", 0, 0, 0, true}, in{d + "/sub/in", 0, 0, 0, true}, f1{d + "/f1", 0, 0, 0, false}, f2{d + "/sub/f2", 0, 0, 0, false}, f3{d + "/sub/in/f3", 0, 0, 0, false};
    mkdir(sub.path.c_str(), 0700);
    mkdir(in.path.c_str(), 0700);
    for (auto* f : {&f1, &f2, &f3}) put(f->path, "#!/bin/true\n");
    symlink("sub/f2", (d + "/link").c_str());
    symlink("none", (d + "/dangling").c_str());
    for (auto* n : {&f3, &f2, &f1, &in, &sub}) own(*n);
    static const char* const who[] = {"user 0", "user 1", "user 2", "user 3"};
    static const FileAccessMode modes[] = {FileAccessMode::exist, FileAccessMode::exec, FileAccessMode::write, FileAccessMode::write_exec, FileAccessMode::read, FileAccessMode::read_exec,
                                           FileAccessMode::read_write, FileAccessMode::read_write_exec};
    struct Q { S path; const Node* n; std::vector<const Node*> through; bool exists; };
    std::vector<Q> qs{{f1.path, &f1, {}, true}, {sub.path, &sub, {}, true}, {f2.path, &f2, {&sub}, true}, {in.path, &in, {&sub}, true}, {f3.path, &f3, {&sub, &in}, true}, {d + "/link", &f2, {&sub}, true},
        {d + "/dangling", nullptr, {}, false}, {d + "/none", nullptr, {}, false}, {d + "/sub/none", nullptr, {}, false}, {"", nullptr, {}, false}, {f1.path + "/", nullptr, {}, false},
        {f1.path + "/x", nullptr, {}, false}, {d + "/" + S(300, 'n'), nullptr, {}, false}, {d + "/./sub/../f1", &f1, {&sub}, true}, {d + "/sub/", &sub, {}, true}};
    int nu = g_users ? 4 : 0;
    for (int u = -1; u < nu; ++u)
    {
        for (auto& q : qs)
        {
            bool got[8];
            int tried = -1;
            bool have = true;
            {
                As as(u < 0 ? nullptr : &USERS[u]);
                have = as.ok;
                for (int m = 0; m < 8; ++m) got[m] = is_file_accessible(q.path.c_str(), modes[m]);
                if (have && q.exists && r.chance(25)) tried = try_it(q.path, q.n->dir);
            }
            if (!have) { g_users = false; break; }
            bool reach = q.exists;
            int b = 0;
            if (u < 0)
            {
                if (q.exists) b = 6 | (q.n->dir || (q.n->mode & 0111) ? 1 : 0);
                static const bool cap = []{
                            S p = g_dir + "/cap" + std::to_string(syscall(SYS_gettid));
                            put(p, "");
                            if (chown(p.c_str(), 54321, 54321) != 0) return false;
                            chmod(p.c_str(), 0);
                            int fd = open(p.c_str(), O_RDWR);
                            if (fd >= 0) close(fd);
                            unlink(p.c_str());
                            return fd >= 0;
                        }();
                if (!cap) continue;
            }
            else if (q.exists)
            {
                for (auto* t : q.through) reach = reach && (bits(*t, USERS[u]) & 1);
                b = bits(*q.n, USERS[u]);
            }
            for (int m = 0; m < 8; ++m)
            {
                bool want = reach && (m & b) == m;
                VF_CHECK(got[m] == want, want ? "access-denied" : "access-claimed", "is_file_accessible(" << show(q.path.substr(d.size() < q.path.size() ? d.size() : 0)) << ", " << m << ") of " << (u < 0 ? "root" : who[u])
                                  << " is " << got[m] << (q.n ? ", mode " + mode_str(q.n->mode) + " of " + std::to_string(q.n->uid) + ":" + std::to_string(q.n->gid) : S(", no such file")));
                vf::count("steps");
            }
            if (tried >= 0)
            {
                int mask = q.n->dir ? 4 : 7;
                for (int m : {4, 2, 1})
                    if (m & mask) VF_CHECK(got[m] == !!(tried & m), "attempt-differs", "is_file_accessible(" << show(q.path) << ", " << m << ") of " << (u < 0 ? "root" : who[u]) << " is " << got[m] << " but trying it "
                                      << (tried & m ? "works" : "fails"));
                vf::count("attempts");
            }
            if (q.n) vf::seen("sequences", q.n->mode * 64 + u * 8 + (q.n->dir ? 1 : 0) + (q.n->uid % 7) * 100000 + (q.n->gid % 7) * 1000000);
        }
        if (u >= 0) vf::count("unprivileged");
    }
    if (!nu) vf::count("users_unavailable");
    VF_CHECK(is_file_accessible(d.c_str()), "access-denied", "the default is not to ask for existence");
    VF_CHECK((FileAccessMode::read | FileAccessMode::write) == FileAccessMode::read_write && (FileAccessMode::read_exec & FileAccessMode::write_exec) == FileAccessMode::exec
            && (FileAccessMode::read & FileAccessMode::write) == FileAccessMode::exist, "mode-arithmetic", "| or & of access modes");
    for (auto* n : {&in, &sub}) chmod(n->path.c_str(), 0700);
    for (S p : {f1.path, f2.path, f3.path, d + "/link", d + "/dangling"}) unlink(p.c_str());
    rmdir(in.path.c_str());
    rmdir(sub.path.c_str());
    rmdir(d.c_str());
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    g_dir = ".";                                                     // the scratch directory; only it must be entered by other users
    chmod(".", 0755);
    vf::batches("reading", 160, reading);
    vf::batches("failing", 160, failing);
    vf::batches("access", 240, access_checks);
    return vf::finish();
}
