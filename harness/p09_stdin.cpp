// P09: StdinEventHandler and CommandReader. The standard input is a pipe, the standard output a file or a terminal of
// some width; lines delivered are compared with a model of the keys.
#include <vf.hpp>
#include <csignal>
#include <iostream>
#include <pty.h>
#include <termios.h>
#include <stdio_ext.h>
#include <sys/ioctl.h>
#include <cpp_utils/event/StdinEventHandler.hpp>
#include <cpp_utils/user_interface/CommandReader.hpp>

using namespace eprosima::utils;
using event::StdinEventHandler;
using S = std::string;

// ---------------------------------------------------------------- model
struct Hist
{
    std::vector<std::string> v;
    size_t pos = 0;
    void add(const std::string& s) { v.push_back(s); pos = v.size(); }
    std::string prev() { return pos ? v[--pos] : ""; }
    std::string next()
    {
        if (pos >= v.size()) return "";
        return ++pos < v.size() ? v[pos] : "";
    }
};
struct Editor
{
    std::string in;
    size_t at = 0;
    Hist hist;
    int get() { return at < in.size() ? (unsigned char)in[at++] : -1; }
    void rest(int c) { while (c >= 0x20 && c <= 0x3f) c = get(); }
    bool tilde() { int c = get(); rest(c); return c == '~'; }
    // Next line delivered. remember: whether it goes to the history
    std::string line(bool remember)
    {
        std::string before, after;
        auto recall = [&](const std::string& s) { before = s; after.clear(); };
        for (;;)
        {
            int c = get();
            if (c == 27)
            {
                get();
                int k = get();
                bool page = (k == '5' || k == '6');
                if (page && !tilde()) continue;
                if (k == 'A' || k == '5') { std::string p = hist.prev(); if (!p.empty()) recall(p); }
                else if (k == 'B' || k == '6') recall(hist.next());
                else if (k == 'D') { if (!before.empty()) { after.insert(0, 1, before.back()); before.pop_back(); } }
                else if (k == 'C') { if (!after.empty()) { before += after[0]; after.erase(0, 1); } }
                else if (k == 'H') { after = before + after; before.clear(); }
                else if (k == 'F') { before += after; after.clear(); }
                else if (k == '3') { if (tilde() && !after.empty()) after.erase(0, 1); }
                else rest(k);
            }
            else if (c == '\n' || c == '\r' || c == -1)
            {
                std::string l = before + after;
                if (remember && !l.empty()) hist.add(l);
                return l;
            }
            else if (c == 8 || c == 127) { if (!before.empty()) before.pop_back(); }
            else if (c == 3) return "";
            else before += (char)c;
        }
    }
};

// ---------------------------------------------------------------- standard input and output
struct Console
{
    int w = -1, master = -1;
    std::thread drain;
    std::string kind;
    // width: -1 a file, -2 closed, otherwise a terminal
    explicit Console(int width)
    {
        int p[2];
        if (pipe(p)) abort();
        w = p[1];
        fcntl(w, F_SETFD, FD_CLOEXEC);
        dup2(p[0], 0);
        close(p[0]);
        __fpurge(stdin);
        clearerr(stdin);
        fflush(stdout);
        std::cout.flush();
        std::cout.clear();
        if (width >= 0)
        {
            int s;
            struct winsize ws = {24, (unsigned short)width, 0, 0};
            if (openpty(&master, &s, nullptr, nullptr, &ws)) abort();
            dup2(s, 1);
            close(s);
            int m = master;
            drain = std::thread([m]
                            {
                                char b[4096];
                                while (read(m, b, sizeof b) > 0)
                                {
                                }
                            });
            vf::count("terminals");
        }
        else
        {
            int s = open(width == -1 ? "/dev/null" : "out", O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
            dup2(s, 1);
            close(s);
            if (width == -2) close(1);
        }
        kind = "w=" + std::to_string(width);
    }
    void put(const char* d, size_t n)
    {
        if (::write(w, d, n) != (ssize_t)n) abort();
    }
    void eof()
    {
        if (w >= 0) close(w);
        w = -1;
    }
    ~Console()
    {
        eof();
        fflush(stdout);
        std::cout.flush();
        int n = open("/dev/null", O_RDWR | O_CLOEXEC);
        dup2(n, 1);
        dup2(n, 0);
        close(n);
        __fpurge(stdin);
        clearerr(stdin);
        clearerr(stdout);
        if (drain.joinable())
        {
            drain.join();   // the slave side was closed by dup2
            close(master);
        }
    }
};

int width(vf::Rng& r)
{
    static const std::vector<int> v = {-1, -1, -2, 0, 1, 2, 3, 4, 5, 7, 20, 80, 200, 65535};
    return r.pick(v);
}

const std::vector<std::string> KEYS = {"\033[A", "\033[B", "\033[C", "\033[D", "\033[C", "\033[D", "\033[H", "\033[F", "\033[3~", "\033[5~", "\033[6~",
                                       "\033[2~", "\x7f", "\b", "\x7f", "\033[D", "\033[3~"};
const std::vector<std::string> ODD = {"\033[1;5C", "\033[3;5~", "\033[15~", "\033[24~", "\033OP", "\033OA", "\033[Z", "\033[200~", "\033[1~", "\033[4~", "\t",
                                      "\033[5;2~", "\033[6;", "\033[3x", "\033[5A", "\033[2x", "\033", "\033[", "\033[3", "\033[5", "\033\033[A", "\033[?25h", "\x01",
                                      "\x1a", "\x04", "\x11", "\x13"};
std::string keys(vf::Rng& r, int lines, bool wild)
{
    std::string s;
    std::vector<std::string> words = {"help", "start", "now ", " ", "\"", "x", "caf\xc3\xa9", "\xff", "~", "[", "some longer words in one go "};
    int done = 0;
    unsigned p_key = (unsigned)r.range(5, 70), p_odd = wild ? (unsigned)r.below(40) : 0, p_line = (unsigned)r.range(8, 30);
    while (done < lines && s.size() < 12000)
    {
        if (r.chance(p_line))
        {
            s += r.chance(85) ? "\n" : r.chance(70) ? "\r" : wild ? "\x03" : "\n";
            ++done;
        }
        else if (r.chance(p_odd)) s += r.chance(70) ? r.pick(ODD) : r.bytes(r.range(1, 6));
        else if (r.chance(p_key)) s += r.pick(KEYS);
        else if (r.chance(60)) s += (char)r.range('a', 'z');
        else s += r.pick(words);
    }
    return s;
}

struct Got
{
    std::mutex m;
    std::vector<std::string> v;
    std::atomic<int> inside{0};
    void add(const std::string& s)
    {
        VF_CHECK(inside.fetch_add(1) == 0, "overlap", "two deliveries at once");
        std::lock_guard<std::mutex> l(m);
        v.push_back(s);
        inside.fetch_sub(1);
    }
    size_t n()
    {
        std::lock_guard<std::mutex> l(m);
        return v.size();
    }
};
void compare(const std::vector<std::string>& got, const std::vector<std::string>& want, const std::string& in, const std::string& more)
{
    for (size_t i = 0; i < std::max(got.size(), want.size()); ++i)
    {
        if (i >= got.size() || i >= want.size() || got[i] != want[i])
        {
            vf::viol(i >= want.size() ? "extra-line" : i >= got.size() ? "missing-line" : "wrong-line",
                    "line " + std::to_string(i) + " is " + (i < got.size() ? vf::show(got[i]) : "missing") + " instead of " +
                    (i < want.size() ? vf::show(want[i]) : "nothing") + " " + more + " input " + vf::show(in));
            return;
        }
    }
}

// ---------------------------------------------------------------- command reader
enum class Cmd { none, start, stop, help };
std::vector<std::string> split_model(const std::string& l)
{
    std::vector<std::string> v(1);
    for (char c : l)
    {
        if (c == ' ') v.emplace_back();
        else v.back() += c;
    }
    std::vector<std::string> r;
    for (size_t i = 0; i < v.size(); ++i)
    {
        if (v[i].empty() || v[i][0] != '"')
        {
            r.push_back(v[i]);
            continue;
        }
        std::string run = v[i].substr(1);
        bool closed = !run.empty() && run.back() == '"';
        while (!closed && i + 1 < v.size())
        {
            run += ' ' + v[++i];
            closed = run.back() == '"';
        }
        if (closed) run.pop_back();
        r.push_back(run);
    }
    return r;
}
struct Reader : CommandReader<Cmd>
{
    using CommandReader<Cmd>::CommandReader;
};
const std::map<Cmd, std::set<std::string>> NAMES = {{Cmd::start, {"start", "run"}}, {Cmd::stop, {"stop", "halt", "\""}}, {Cmd::help, {"help", "two words"}}};
std::string command_line(vf::Rng& r)
{
    static const std::vector<std::string> w = {"start", "run", "stop", "halt", "help", "Start", "startx", "", "\"", "\"\"", "\"a", "b\"", "\"two", "words\"", "word", "\"one\"",
                                               "a\"b", "\"\"\"", "x\"", "\"start\""};
    std::string l;
    int n = (int)(r.chance(2) ? r.below(800) : r.below(7));
    for (int i = 0; i < n; ++i)
    {
        if (i) l += r.chance(10) ? "  " : " ";
        l += r.pick(w);
    }
    return l;
}
void check_command(bool ok, const Command<Cmd>& c, const std::string& l)
{
    auto want = split_model(l);
    std::string a, b;
    for (auto& x : c.arguments) a += vf::show(x) + ",";
    for (auto& x : want) b += vf::show(x) + ",";
    VF_CHECK(c.arguments == want, "wrong-arguments", "line " << vf::show(l) << " gives " << a << " instead of " << b);
    Cmd k = Cmd::none;
    for (auto& n : NAMES) if (n.second.count(want[0])) k = n.first;
    VF_CHECK(ok == (k != Cmd::none), "wrong-command-result", "line " << vf::show(l) << " returned " << ok);
    if (ok && k != Cmd::none) VF_CHECK(c.command == k, "wrong-command", "line " << vf::show(l) << " gives command " << (int)c.command);
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    signal(SIGPIPE, SIG_IGN);

    vf::batches("keys", 700, [&](vf::Rng& r)
            {
                int wd = width(r);
                Console con(wd);
                Editor m;
                m.in = keys(r, (int)r.range(1, 25), r.chance(60));
                if (r.chance(15)) m.in = r.bytes(r.below(600));
                if (r.chance(15)) m.in += "unfinished " + r.pick(ODD);
                // lines that the input makes, counting those ended by its end
                int total = 0;
                {
                    Editor c = m;
                    while (c.at < c.in.size()) { c.line(true); ++total; }
                }
                int want_n = r.chance(70) ? total : r.chance(50) ? (int)r.below((uint64_t)total + 1) : total + (int)r.range(1, 3);
                int first = r.chance(50) ? 0 : (int)r.below((uint64_t)want_n + 1);
                unsigned ign = r.chance(50) ? 0 : (unsigned)r.below(60);
                std::vector<char> ignore;
                for (int i = 0; i <= want_n; ++i) ignore.push_back(r.chance(ign));
                Got got;
                {
                    std::unique_ptr<StdinEventHandler> h;
                    std::atomic<StdinEventHandler*> hp{nullptr};
                    auto cb = [&](std::string s)
                            {
                                StdinEventHandler* p;
                                while (!(p = hp.load())) std::this_thread::yield();
                                size_t i = got.n();
                                p->set_ignore_input(i < ignore.size() && ignore[i]);
                                VF_CHECK(p->is_ignoring_input() == (i < ignore.size() && ignore[i]), "ignoring", "");
                                got.add(s);
                            };
                    bool early = r.chance(30);
                    if (early) con.put(m.in.data(), m.in.size());
                    h.reset(new StdinEventHandler(cb, true, first));
                    hp = h.get();
                    for (int i = first; i < want_n; ++i)
                    {
                        if (r.chance(80)) h->read_one_more_line();
                        else { std::thread([&] { h->read_one_more_line(); }).join(); }
                    }
                    // chunks, that may end in the middle of a key
                    for (size_t i = 0; !early && i < m.in.size(); )
                    {
                        size_t n = std::min(m.in.size() - i, (size_t)r.range(1, r.chance(20) ? 500 : 9));
                        con.put(m.in.data() + i, n);
                        i += n;
                        if (r.chance(2)) vf::sleep_us((unsigned)r.below(300));
                    }
                    con.eof();
                    bool all = vf::eventually([&] { return (int)got.n() >= want_n; }, 5000);
                    VF_CHECK(all, "missing-line", got.n() << " lines of " << want_n << " delivered, " << con.kind << " input " << vf::show(m.in));
                    if (!all) _exit(3);    // the thread of the handler is stuck
                    if (r.chance(50)) h->unset_callback();
                    VF_CHECK(h->event_count() <= (uint32_t)want_n, "event-count", h->event_count() << " events for " << want_n);
                }
                std::vector<std::string> want;
                for (int i = 0; i < want_n; ++i) want.push_back(m.line(!ignore[i]));
                compare(got.v, want, m.in, con.kind);
                vf::count("steps", m.in.size());
                vf::count("lines", (uint64_t)want_n);
                vf::seen("sequences", vf::hash_str(m.in));
                vf::sample("keys " + vf::show(m.in));
            }, 15);

    // Lines of thousands of characters, and thousands of lines
    vf::batches("long", 16, [&](vf::Rng& r)
            {
                Console con(width(r));
                Editor m;
                int n = (int)r.range(1, 4);
                if (r.chance(60))
                {
                    for (int i = 0; i < n; ++i)
                    {
                        size_t len = r.range(900, r.chance(30) ? 20000 : 5000);
                        for (size_t k = 0; k < len; ++k) m.in += (char)r.range('a', 'z');
                        for (size_t e = r.below(30); e--;)
                        {
                            const S k = r.pick(KEYS);
                            for (size_t t = r.chance(20) ? r.below(40) : 1; t--;) m.in += k;
                            if (r.chance(30)) m.in += r.from("xyz ", 1 + r.below(3));
                        }
                        m.in += "\n";
                    }
                }
                else
                {
                    n = (int)r.range(1000, 5000);
                    for (int i = 0; i < n; ++i)
                    {
                        if (r.chance(2)) for (size_t t = r.below(r.chance(10) ? 1500 : 20); t--;) m.in += r.chance(80) ? "\033[A" : "\033[B";
                        else m.in += "l" + std::to_string(i);
                        m.in += "\n";
                    }
                }
                Got got;
                {
                    StdinEventHandler h([&](std::string s) { got.add(s); }, true, n);
                    for (size_t i = 0; i < m.in.size(); )
                    {
                        size_t k = std::min(m.in.size() - i, (size_t)r.range(1, 4000));
                        con.put(m.in.data() + i, k);
                        i += k;
                    }
                    con.eof();
                    bool all = vf::eventually([&] { return (int)got.n() >= n; }, 40000);
                    VF_CHECK(all, "slow-missing-line", got.n() << " lines of " << n);
                    if (!all) _exit(3);
                }
                std::vector<std::string> want;
                for (int i = 0; i < n; ++i) want.push_back(m.line(true));
                for (int i = 0; i < n; ++i)
                    if (i >= (int)got.v.size() || got.v[i] != want[i])
                    {
                        const S g = i < (int)got.v.size() ? got.v[i] : S();
                        vf::viol("wrong-line", "line " + std::to_string(i) + " of " + std::to_string(n) + " has " + std::to_string(g.size()) + " characters ..." + vf::show(g.substr(g.size() < 60 ? 0 : g.size() - 60)) + " instead of " +
                                std::to_string(want[i].size()) + " ..." + vf::show(want[i].substr(want[i].size() < 60 ? 0 : want[i].size() - 60)) + " " + con.kind);
                        break;
                    }
                vf::count("steps", m.in.size());
                vf::count("lines", (uint64_t)n);
            }, 100);

    vf::batches("commands", 250, [&](vf::Rng& r)
            {
                Console con(r.chance(30) ? width(r) : -1);
                int n = (int)r.range(1, 12);
                std::vector<std::string> lines;
                for (int i = 0; i < n; ++i) lines.push_back(command_line(r));
                {
                    EnumBuilder<Cmd> b(NAMES);
                    Reader rd(b);
                    std::string in;
                    bool early = r.chance(50);
                    for (auto& l : lines) in += l + "\n";
                    if (early) con.put(in.data(), in.size());
                    for (auto& l : lines)
                    {
                        if (!early) con.put((l + "\n").data(), l.size() + 1);
                        Command<Cmd> c{Cmd::none, {"old"}};
                        bool ok = rd.read_next_command(c);
                        check_command(ok, c, l);
                    }
                    if (r.chance(30))
                    {
                        // input over: reads an empty command
                        con.eof();
                        Command<Cmd> c{Cmd::none, {}};
                        check_command(rd.read_next_command(c), c, "");
                    }
                    else if (r.chance(40))
                    {
                        // a line nobody consumes, delivered while the reader is destroyed
                        con.put("late\n", 5);
                        rd.stdin_handler().read_one_more_line();
                    }
                }
                vf::count("steps", lines.size());
                for (auto& l : lines) vf::seen("sequences", vf::hash_str(l));
            }, 20);

    // Keys typed on a terminal of some settings, which it has again afterwards
    vf::batches("terminal", 40, [&](vf::Rng& r)
            {
                Console con(width(r));
                int master, s;
                if (openpty(&master, &s, nullptr, nullptr, nullptr)) abort();
                for (int* f : {&master, &s})                     // not those of a closed standard output
                {
                    int n = fcntl(*f, F_DUPFD_CLOEXEC, 100);
                    close(*f);
                    *f = n;
                }
                struct termios before, after;
                tcgetattr(s, &before);
                for (tcflag_t f : {ICANON, ECHO, ISIG, ECHOE, ECHOK, NOFLSH, TOSTOP}) if (r.chance(30)) before.c_lflag ^= f;
                for (tcflag_t f : {ICRNL, IXON, ISTRIP, INLCR}) if (r.chance(10)) before.c_iflag ^= f;
                before.c_cc[VMIN] = (cc_t)r.range(1, 2);
                before.c_cc[VKILL] = (cc_t)r.range(14, 25);
                if (r.chance(20)) before.c_lflag &= ~ECHO;
                tcsetattr(s, TCSANOW, &before);
                tcgetattr(s, &before);
                dup2(s, 0);
                __fpurge(stdin);
                clearerr(stdin);
                std::thread echo([master]
                        {
                            char b[4096];
                            while (read(master, b, sizeof b) > 0)
                            {
                            }
                        });
                size_t lines = 0;
                // a line that was typed before
                bool ahead = r.chance(50) && !(before.c_iflag & (INLCR | ISTRIP));
                if (ahead && write(master, "ahead\n", 6) != 6) abort();
                if (r.chance(50)) vf::sleep_us(300);
                {
                    Got got;
                    StdinEventHandler h([&](std::string x) { got.add(x); }, true, 0);
                    if (ahead)
                    {
                        h.read_one_more_line();
                        bool all = vf::eventually([&] { return got.n() > 0; }, 5000);
                        VF_CHECK(all, "missing-line", "a line typed before the handler began was not delivered");
                        if (!all) _exit(3);
                        std::lock_guard<std::mutex> g(got.m);
                        VF_CHECK(got.v.back() == "ahead", "wrong-line", vf::show(got.v.back()));
                    }
                    for (size_t lives = r.range(1, 3); lives--;)
                    {
                        for (size_t n = r.below(4); n--;)
                        {
                            if (r.chance(50)) h.read_one_more_line();
                            // the line is typed once the handler reads, as before that the terminal keeps keys to itself
                            struct termios now;
                            bool raw = vf::eventually([&] { return tcgetattr(s, &now) == 0 && !(now.c_lflag & (ICANON | ECHO)); });
                            VF_CHECK(raw, "slow-not-raw", "the terminal still edits or shows the keys itself");
                            if (!raw) _exit(3);
                            if (!(now.c_iflag & (INLCR | ISTRIP)))
                            {
                                size_t had = got.n();
                                const S l = "typed " + r.from("abc\xff", 3);
                                h.read_one_more_line();
                                const S in = l + "x\x7f\n";
                                if (write(master, in.data(), in.size()) != (ssize_t)in.size()) abort();
                                bool all = vf::eventually([&] { return got.n() > had; }, 5000);
                                VF_CHECK(all, "missing-line", "a line typed on a terminal was not delivered");
                                if (!all) _exit(3);
                                std::lock_guard<std::mutex> g(got.m);
                                VF_CHECK(got.v.back() == l, "wrong-line", vf::show(got.v.back()) << " instead of " << vf::show(l));
                                ++lines;
                            }
                        }
                        if (lives)
                        {
                            // what it was allowed to read in addition
                            for (int i = 0; i < 16; ++i) if (write(master, "\n", 1) != 1) abort();
                            h.unset_callback();
                            tcgetattr(s, &after);
                            VF_CHECK(after.c_lflag == before.c_lflag && after.c_iflag == before.c_iflag && !memcmp(after.c_cc, before.c_cc, sizeof after.c_cc), "terminal-settings",
                                    "after the callback was unset the terminal has local modes " << after.c_lflag << " instead of " << before.c_lflag);
                            tcflush(s, TCIFLUSH);
                            __fpurge(stdin);
                            if (r.chance(50)) { before.c_lflag ^= ECHOK; tcsetattr(s, TCSANOW, &before); tcgetattr(s, &before); }
                            h.set_callback([&](std::string x) { got.add(x); });
                        }
                    }
                    if (write(master, "\n\n\n\n\n\n\n\n", 8) != 8) abort();
                }
                tcgetattr(s, &after);
                VF_CHECK(after.c_lflag == before.c_lflag && after.c_iflag == before.c_iflag && !memcmp(after.c_cc, before.c_cc, sizeof after.c_cc), "terminal-settings",
                        "after the handler was destroyed the terminal has local modes " << after.c_lflag << " instead of " << before.c_lflag);
                int null = open("/dev/null", O_RDWR | O_CLOEXEC);
                dup2(null, 0);
                close(null);
                close(s);
                echo.join();
                close(master);
                __fpurge(stdin);
                clearerr(stdin);
                vf::count("lines", lines);
                vf::count("terminal_lives");
            }, 40);

    // Input typed while lines are asked for by other threads
    vf::explore("live", vf::Opt().b(10).r(60).p(30).mi(40), [&](vf::Exec& e)
            {
                Console con(e.rng.chance(50) ? 80 : -1);
                Editor m;
                m.in = keys(e.rng, 6, false);
                m.in.resize(std::min<size_t>(m.in.size(), 120));
                m.in += "\n";
                int total = 0;
                {
                    Editor c = m;
                    while (c.at < c.in.size()) { c.line(true); ++total; }
                }
                Got got;
                vf::Rng ra(e.rng.next()), rb(e.rng.next());
                int asked = total + (int)e.rng.below(3);
                {
                    StdinEventHandler h([&](std::string s) { vf_sched_point(1); got.add(s); }, true, 0);
                    e.par({
                              [&]
                              {
                                  for (size_t i = 0; i < m.in.size(); )
                                  {
                                      size_t n = std::min(m.in.size() - i, (size_t)ra.range(1, 40));
                                      con.put(m.in.data() + i, n);
                                      i += n;
                                      vf_sched_point(2);
                                  }
                                  con.eof();
                              },
                              [&] { for (int i = 0; i < asked / 2; ++i) { vf_sched_point(3); h.read_one_more_line(); } },
                              [&] { for (int i = asked / 2; i < asked; ++i) { h.read_one_more_line(); vf_sched_point(4); } },
                              [&] { if (rb.chance(50)) VF_CHECK(h.wait_for_event((uint32_t)total), "wait-for-event", "returned without the events"); }
                          });
                    bool all = vf::eventually([&] { return (int)got.n() >= asked; });
                    VF_CHECK(all, "missing-line", got.n() << " lines of " << asked);
                    if (!all) _exit(3);
                }
                std::vector<std::string> want;
                for (int i = 0; i < asked; ++i) want.push_back(m.line(true));
                compare(got.v, want, m.in, con.kind);
                vf::count("lines", (uint64_t)asked);
            });

    // Callback unset and set again between and during lines: what is read while it is set comes once and in order
    vf::explore("unset", vf::Opt().b(10).r(60).p(30).mi(40), [&](vf::Exec& e)
            {
                Console con(-1);
                int n = (int)e.rng.range(2, 8), cycles = (int)e.rng.range(1, 3);
                std::string in;
                for (int i = 0; i < n; ++i) in += "line " + std::to_string(i) + "\n";
                Got got;
                std::atomic<int> on{1};
                auto cb = [&](std::string s) { VF_CHECK(on == 1, "delivered-while-unset", s); vf_sched_point(1); got.add(s); };
                {
                    StdinEventHandler h(cb, true, (int)e.rng.below((uint64_t)n));
                    std::atomic<int> asked{0};
                    con.put(in.data(), in.size());
                    con.eof();
                    e.par({
                              [&] { for (int i = 0; i < n; ++i) { h.read_one_more_line(); vf_sched_point(2); } },
                              [&]
                              {
                                  for (int i = 0; i < cycles; ++i)
                                  {
                                      vf_sched_point(3);
                                      h.unset_callback();
                                      on = 0;
                                      vf_sched_point(4);
                                      on = 1;
                                      h.set_callback(cb);
                                  }
                              }
                          });
                    // every activation is used, though lines read between unset and stop go to nobody: a last line is delivered
                    for (int i = 0; i < 2; ++i) h.read_one_more_line();
                    bool all = vf::eventually([&]
                                    {
                                        std::lock_guard<std::mutex> l(got.m);
                                        return !got.v.empty() && got.v.back().empty();
                                    }, 3000);
                    VF_CHECK(all, "missing-line", "the end of the input was not delivered, after " << got.n() << " lines");
                }
                int last = -1;
                for (auto& s : got.v)
                {
                    int k = -1;
                    if (s.empty())
                    {
                        last = n;
                        continue;
                    }
                    VF_CHECK(sscanf(s.c_str(), "line %d", &k) == 1 && s == "line " + std::to_string(k), "wrong-line", vf::show(s));
                    VF_CHECK(k > last, k == last ? "extra-line" : "wrong-order", "line " << k << " after " << last);
                    last = k;
                }
            });

    // Several readers of commands: each line goes to one of them
    vf::explore("readers", vf::Opt().b(10).r(50).p(30).mi(30), [&](vf::Exec& e)
            {
                Console con(-1);
                std::vector<std::string> lines, got;
                std::string in;
                for (int i = 0; i < 4; ++i)
                {
                    lines.push_back((i % 2 ? "stop " : "start ") + std::to_string(i) + " \"quoted run\"");
                    in += lines.back() + "\n";
                }
                std::mutex mx;
                EnumBuilder<Cmd> b(NAMES);
                {
                    Reader rd(b);
                    auto one = [&]
                            {
                                Command<Cmd> c{Cmd::none, {}};
                                bool ok = rd.read_next_command(c);
                                std::string l;
                                if (c.arguments.size() == 3) l = c.arguments[0] + " " + c.arguments[1] + " \"" + c.arguments[2] + "\"";
                                check_command(ok, c, l);
                                std::lock_guard<std::mutex> g(mx);
                                got.push_back(l);
                            };
                    e.par({
                              [&] { one(); one(); },
                              [&] { one(); one(); },
                              [&] { con.put(in.data(), 10); vf_sched_point(1); con.put(in.data() + 10, in.size() - 10); }
                          });
                }
                std::sort(got.begin(), got.end());
                std::sort(lines.begin(), lines.end());
                VF_CHECK(got == lines, "exactly-once", got.size() << " commands");
            });
    return vf::finish();
}
