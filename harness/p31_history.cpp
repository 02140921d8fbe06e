// P31: CommandHistoryHandler against the position-in-a-list it describes.
#include <vf.hpp>
#include <cpp_utils/history/CommandHistoryHandler.hpp>

using eprosima::utils::history::CommandHistoryHandler;

struct Model
{
    std::vector<std::string> v;
    size_t pos = 0;             // v.size(): after the last one
    void add(const std::string& s)
    {
        if (s.empty()) return;
        v.push_back(s);
        pos = v.size();
    }
    std::string prev()
    {
        if (pos == 0) return "";
        return v[--pos];
    }
    std::string next()
    {
        if (pos >= v.size()) return "";
        ++pos;
        return pos < v.size() ? v[pos] : "";
    }
};

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    // Short sequences of calls, all of them: 4 calls up to length 8
    vf::batches("all", 1, [&](vf::Rng&)
            {
                long total = 0;
                for (int first = 0; first < 16; ++first)
                for (int len = 2; len <= 8; ++len)
                {
                    long n = 1;
                    for (int i = 0; i < len - 2; ++i) n *= 4;
                    for (long c = 0; c < n; ++c)
                    {
                        CommandHistoryHandler h;
                        Model m;
                        std::string seq;
                        long code = c * 16 + first;
                        for (int i = 0; i < len; ++i, code /= 4)
                        {
                            std::string a, b;
                            int op = (int)(code % 4);
                            seq += "ANPE"[op];
                            if (op == 0) { std::string t = "command number " + std::to_string(i); h.add_command(t); m.add(t); }
                            else if (op == 1) { a = h.get_next_command(); b = m.next(); }
                            else if (op == 2) { a = h.get_previous_command(); b = m.prev(); }
                            else { h.add_command(""); m.add(""); }
                            VF_CHECK(a == b, "wrong-command", "after " << seq << " got " << vf::show(a) << " instead of " << vf::show(b));
                        }
                        ++total;
                        if (total % 64 == 1) vf::sample("calls " + seq);
                    }
                }
                vf::count("sequences_of_calls", (uint64_t)total);
                vf::count("steps", (uint64_t)total * 8);
                vf::seen("sequences", vf::mix((uint64_t)total));
            });
    vf::batches("random", 400, [&](vf::Rng& r)
            {
                CommandHistoryHandler h;
                std::unique_ptr<CommandHistoryHandler> copy;
                Model m, mc;
                uint64_t hash = 0;
                unsigned add = (unsigned)r.range(1, 60), empty = (unsigned)r.below(30), bias = (unsigned)r.range(10, 90);
                std::vector<std::string> pool = {"x", "help", std::string(1, 0), " ", std::string("nul\0inside", 10), r.bytes(3000)};
                int n = (int)r.range(20, 1500);
                for (int i = 0; i < n; ++i)
                {
                    std::string a, b;
                    std::string what;
                    if (r.chance(add) && r.chance(40))
                    {
                        std::string t = r.chance(empty) ? "" : r.chance(50) ? r.pick(pool) : r.bytes(r.below(40));
                        h.add_command(t); m.add(t);
                        what = "add";
                    }
                    else if (r.chance(bias)) { a = h.get_next_command(); b = m.next(); what = "next"; }
                    else { a = h.get_previous_command(); b = m.prev(); what = "previous"; }
                    VF_CHECK(a == b, "wrong-command", what << " at call " << i << " got " << vf::show(a) << " instead of " << vf::show(b));
                    hash = vf::mix(hash ^ vf::hash_str(what + b));
                    if (r.chance(2)) bias = (unsigned)r.range(10, 90);
                    if (r.chance(1))
                    {
                        copy = std::make_unique<CommandHistoryHandler>(h);
                        mc = m;
                    }
                    if (copy && r.chance(20))
                    {
                        bool nx = r.chance(50);
                        a = nx ? copy->get_next_command() : copy->get_previous_command();
                        b = nx ? mc.next() : mc.prev();
                        VF_CHECK(a == b, "wrong-command-copy", "copy got " << vf::show(a) << " instead of " << vf::show(b));
                    }
                }
                vf::count("steps", (uint64_t)n);
                vf::seen("sequences", hash);
            });
    // Long histories: nothing falls out of them
    vf::batches("long", 6, [&](vf::Rng& r)
            {
                CommandHistoryHandler h;
                Model m;
                size_t n = r.pick(std::vector<size_t>{257, 1025, 5000, 33000, 66000, 100001});
                auto step = [&](bool next)
                        {
                            std::string a = next ? h.get_next_command() : h.get_previous_command(), b = next ? m.next() : m.prev();
                            VF_CHECK(a == b, "wrong-command", (next ? "next" : "previous") << " among " << m.v.size() << " commands got " << vf::show(a) << " instead of " << vf::show(b));
                        };
                auto fill = [&](size_t k)
                        {
                            for (size_t i = 0; i < k; ++i)
                            {
                                std::string t = r.chance(20) && !m.v.empty() ? m.v.back() : "c" + std::to_string(m.v.size());
                                h.add_command(t);
                                m.add(t);
                            }
                        };
                fill(n);
                for (size_t k = n + 3; k--;) step(false);
                for (size_t k = r.below(n); k--;) step(true);
                fill(r.range(1, 2000));
                for (size_t k = m.v.size() + 2; k--;) step(false);
                for (size_t k = m.v.size() + 2; k--;) step(true);
                vf::count("steps", 5 * n);
                vf::seen("sequences", vf::mix(n));
            });
    return vf::finish();
}
