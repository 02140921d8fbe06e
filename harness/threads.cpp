// What holds of calls and objects of one thread holds when other threads make calls, or use objects of their own, at
// the same time: the results of many threads that start together, in a process that has done nothing before, are those
// of the same calls made one after another (for the property that VF_PART says).
#include <vf.hpp>
#include <functional>
#include <memory>
#include <sstream>
#include <unistd.h>
#if VF_PART == 14
#include <cpp_utils/pool/UnboundedPool.hpp>
#elif VF_PART == 15
#include <cpp_utils/math/random/RandomManager.hpp>
#include <cpp_utils/math/random/TSafeRandomManager.hpp>
#elif VF_PART == 17
#include <cpp_utils/macros/macros.hpp>
#include <cpp_utils/math/math_extension.hpp>
#elif VF_PART == 18
#include <cpp_utils/time/PausableTimer.hpp>
#elif VF_PART == 20
#include <cpp_utils/enum/EnumBuilder.hpp>
#include <cpp_utils/macros/custom_enumeration.hpp>
#elif VF_PART == 24
#include <map>
#include <unordered_map>
#include <cpp_utils/types/Tree.hpp>
#include <cpp_utils/types/cast.hpp>
#include <cpp_utils/utils.hpp>
#elif VF_PART == 25
#include <cpp_utils/ReturnCode.hpp>
#include <cpp_utils/qos/qos_utils.hpp>
#elif VF_PART == 26
#include <cpp_utils/ros2_mangling.hpp>
#elif VF_PART == 28
#include <fcntl.h>
#include <sys/stat.h>
#include <cpp_utils/exception/PreconditionNotMet.hpp>
#include <cpp_utils/file/file_utils.hpp>
#include <cpp_utils/utils.hpp>
#elif VF_PART == 30
#include <cpp_utils/exception/ConfigurationException.hpp>
#include <cpp_utils/exception/InconsistencyException.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/utils.hpp>
#elif VF_PART == 31
#include <cpp_utils/history/CommandHistoryHandler.hpp>
#elif VF_PART == 34
#include <optionparser.h>
#else
#include <cpp_utils/exception/PreconditionNotMet.hpp>
#include <cpp_utils/utils.hpp>
#endif
#if VF_PART != 34
using namespace eprosima::utils;
#endif
using S = std::string;
using Job = std::function<S(vf::Rng&)>;
template <class F> S refused(F f)
{
    try { return f(); }
    catch (const std::exception& e) { return S("refused: ") + e.what(); }
}
template <class T> S str(const T& t)
{
    std::ostringstream o;
    o << t;
    return o.str();
}
static S word(vf::Rng& r) { return r.from("ab,;/:_ \nZ", r.below(30)); }

#if VF_PART == 14
struct Obj { S text = "an object of a pool, as created"; };
struct Pool : UnboundedPool<Obj>
{
    unsigned made = 0, gone = 0;
    Pool(PoolConfiguration c) : UnboundedPool<Obj>(c) { initialize_vector_(); }
    Obj* new_element_() override { ++made; return UnboundedPool<Obj>::new_element_(); }
    void delete_element_(Obj* o) override { ++gone; delete o; }
};
static std::vector<Job> jobs()
{
    return {[](vf::Rng& r)
    {
        Pool p(PoolConfiguration((unsigned)r.below(5), 0, 1 + (unsigned)r.below(4)));
        std::vector<Obj*> held;
        std::set<Obj*> all;
        for (int i = 0; i < 60; ++i)
            if (held.empty() || r.chance(55))
            {
                Obj* o = nullptr;
                if (!p.loan(o) || !o) return S("no loan");
                for (auto h : held) if (h == o) return S("lent twice");
                o->text = "an object of a pool, lent for the turn " + std::to_string(i);
                held.push_back(o);
                all.insert(o);
            }
            else
            {
                size_t k = r.below(held.size());
                if (held[k]->text.compare(0, 39, "an object of a pool, lent for the turn ")) return S("changed while lent: ") + held[k]->text;
                p.return_loan(held[k]);
                held.erase(held.begin() + (long)k);
            }
        for (auto o : held) p.return_loan(o);
        return "made " + std::to_string(p.made) + " lent " + std::to_string(all.size());
    }};
}
#elif VF_PART == 15
template <class M> S values(vf::Rng& r)
{
    RandomSeedType s = r.chance(50) ? (RandomSeedType)r.below(4) : (RandomSeedType)r.next();
    M m(s);
    S out;
    for (int i = 0; i < 30; ++i)
        switch (r.below(5))
        {
            case 0: m.pure_rand(); break;
            case 1: m.seed((RandomSeedType)r.below(3)); break;
            case 2: out += " s" + std::to_string(m.seeded_rand((RandomSeedType)r.below(5))); break;
            default: out += " " + std::to_string(m.sequence_rand());
        }
    return out;
}
static std::vector<Job> jobs() { return {values<RandomManager>, values<TSafeRandomManager>}; }
#elif VF_PART == 17
static std::vector<Job> jobs()
{
    auto u = [](vf::Rng& r) { return (unsigned)(r.next() >> (32 + r.below(32))); };
    return {
        [=](vf::Rng& r) { unsigned a = u(r), b = u(r) | 1; return str(fast_module(a, b)) + " " + str(fast_division(a, b)) + " " + str(fast_module(a, b & -b)) + " " + str(fast_division(a, 16)); },
        [=](vf::Rng& r) { unsigned a = u(r); return str(is_even(a)) + str(is_power_of_2(a)) + str(is_power_of_2(a & -a)); },
        [=](vf::Rng& r) { return str(arithmetic_progression_sum(u(r) & 0xff, 1 + (u(r) & 0xf), 1 + (u(r) & 0x1ff))) + " " + str(fast_exponential((unsigned)r.below(8), (unsigned)r.below(11))); },
    };
}
#elif VF_PART == 18
static std::vector<Job> jobs()
{
    return {[](vf::Rng& r)
    {
        // Only what holds whatever the schedule: bounds by the real time, and standing still while paused
        int64_t t0 = vf::now_ns();
        std::unique_ptr<Timer> t(new Timer);
        PausableTimer a(false), b(true);
        int64_t t1 = vf::now_ns();
        if (a.playing() || !b.playing()) return S("not as made");
        double last = 0, lastb = 0;
        for (int i = 0; i < 12; ++i)
        {
            if (r.chance(30)) vf::sleep_us(r.below(1500));
            if (a.elapsed() != 0 || a.elapsed_ms() != 0) return S("a timer that never played counts");
            double least = (double)(vf::now_ns() - t1) / 1e6, e = t->elapsed(), f = b.elapsed(), most = (double)(vf::now_ns() - t0) / 1e6;
            if (e < least - 1.01 || e > most + 0.01 || f < least - 1.01 || f > most + 0.01) return "wrong: " + str(e) + " and " + str(f) + " between " + str(least) + " and " + str(most);
            if (e < last || f < lastb) return S("goes back");
            last = e;
            lastb = f;
        }
        b.pause();
        double f = b.elapsed();
        vf::sleep_us(r.below(2500));
        if (b.elapsed() != f || f < lastb) return S("counts while paused");
        b.reset();
        if (b.elapsed() != 0 || b.playing()) return S("reset does not bring it to zero");
        t->reset();
        b.play();
        int64_t t2 = vf::now_ns();
        vf::sleep_us(r.below(2500));
        double least = (double)(vf::now_ns() - t2) / 1e6;
        if (b.elapsed() < least - 1.01 || t->elapsed() < least - 1.01) return S("does not count after reset");
        return S("right");
    },
    // Timers that all threads ask
    [](vf::Rng&)
    {
        static const int64_t t0 = vf::now_ns();
        static const Timer shared;
        static const PausableTimer playing(true), paused(false);
        static const int64_t t1 = vf::now_ns();
        double last = 0;
        for (int i = 0; i < 50; ++i)
        {
            double least = (double)(vf::now_ns() - t1) / 1e6, e = shared.elapsed(), f = playing.elapsed(), most = (double)(vf::now_ns() - t0) / 1e6;
            if (e < least - 1.01 || e > most + 0.01 || f < least - 1.01 || f > most + 0.01 || e < last) return "wrong: " + str(e) + " and " + str(f) + " between " + str(least) + " and " + str(most);
            if (paused.elapsed() != 0 || paused.playing() || !playing.playing()) return S("a timer that never played counts");
            last = e;
        }
        return S("right");
    }};
}
#elif VF_PART == 20
ENUMERATION_BUILDER(Fruit, apple, pear, plum, fig, lime);
enum class Wall { brick, stone, none };
eProsima_ENUMERATION_BUILDER(WallBuilder, Wall, { { Wall::brick COMMA { "brick" COMMA "b" } } COMMA { Wall::stone COMMA { "stone" COMMA "s" COMMA "rock" } } });
static std::vector<Job> jobs()
{
    static const std::vector<S> NAMES{"apple", "pear", "plum", "fig", "lime", "brick", "b", "stone", "s", "rock", "none", ""};
    return {
        [](vf::Rng& r)
        {
            S n = r.pick(NAMES);
            Fruit f = Fruit::lime;
            S s = string_to_enumeration(n, f) ? to_string(f) : "none";
            return s + " " + refused([&] { return str(from_string_Fruit(n)); }) + " " + to_string((Fruit)r.below(5)) + " " + str(string_vector_Fruit().size()) + string_vector_Fruit()[r.below(5)] + to_string(all_values_Fruit()[r.below(5)]);
        },
        [](vf::Rng& r)
        {
            S n = r.pick(NAMES);
            Wall w = Wall::none;
            bool k = WallBuilder::get_instance()->string_to_enumeration(n, w);
            return str(k) + (k ? str((int)w) : "") + " " + refused([&] { return str((int)WallBuilder::get_instance()->string_to_enumeration(n)); });
        },
        [](vf::Rng& r)
        {
            std::map<S, Wall> t{{"x" + std::to_string(r.below(4)), Wall::brick}, {"y", Wall::stone}};
            EnumBuilder<Wall> b(t);
            if (r.chance(50)) b.refactor_values(std::map<S, Wall>{{"z", Wall::stone}, {"x1", Wall::stone}});
            S out;
            for (auto k : {"x0", "x1", "x2", "y", "z"}) { Wall w = Wall::none; out += b.find(k, w) ? str((int)w) : "-"; }
            return out;
        },
    };
}
#elif VF_PART == 22
static std::vector<Job> jobs()
{
    return {
        [](vf::Rng& r) { S out; for (auto& p : split_string(word(r), S(1, ",;/:_"[r.below(5)]))) out += "[" + p + "]"; return out; },
        [](vf::Rng& r) { S out; for (auto& p : split_string(word(r), std::set<S>{",", ";", S(1, "/:_"[r.below(3)])})) out += "[" + p + "]"; return out; },
        [](vf::Rng& r) { S out; for (auto& p : split_string(std::vector<S>{word(r), word(r)}, ",")) out += "[" + p + "]"; return out; },
        [](vf::Rng& r) { S s = word(r); bool f = replace_first(s, r.from("ab", 1), r.from("xy", 2)); return s + (f ? "+" : "-"); },
        [](vf::Rng& r) { S s = word(r); unsigned n = replace_all(s, r.from("ab", 1), r.from("xy", r.below(3))); return s + str(n); },
        [](vf::Rng& r) { S s = word(r); unsigned n = r.chance(50) ? strip_str(s) : strip_str(s, "-", {"a", "b,", " "}); return s + str(n); },
        [](vf::Rng& r) { S s = word(r), t = s; to_lowercase(s); to_uppercase(t); return s + t; },
        [](vf::Rng& r) { return refused([&] { return number_trailing_zeros_format((int)(r.next() >> (33 + r.below(31))), 1 + (unsigned)r.below(12), r.chance(70)); }); },
        [](vf::Rng& r) { return str(match_pattern(r.from("ab*?[]", r.below(8)), r.from("ab", r.below(8)))) + str(match_pattern("*a?b*", word(r))); },
    };
}
#elif VF_PART == 23
static std::vector<Job> jobs()
{
    return {
        [](vf::Rng& r) { return base64_encode(r.bytes(r.below(60))); },
        [](vf::Rng& r) { S s = r.bytes(r.below(60)); return base64_decode(base64_encode(s)) == s ? base64_decode(r.from("abcdWXYZ0189+/", r.below(50)) + "==") : "lost"; },
        [](vf::Rng& r) { return from_bytes(r.next() >> r.below(64)); },
        [](vf::Rng& r)
        {
            S n = str(r.below(100000));
            if (r.chance(30)) n += "." + str(r.below(1000));
            return refused([&] { return str(to_bytes(n + r.pick(std::vector<S>{"B", "KB", "kb", "MiB", "GB", "tib", "PB", "", "XB", " MB", "eib"}))); });
        },
    };
}
#elif VF_PART == 24
struct Base { virtual ~Base() = default; int v = 0; bool operator==(const Base& o) const { return v == o.v; } };
struct Child : Base { Child(int n = 0) { v = n; } bool operator<(const Child& o) const { return v < o.v; } };
static std::vector<Job> jobs()
{
    return {
        [](vf::Rng& r)
        {
            std::ostringstream o;
            std::vector<int> v;
            std::set<S> s;
            std::vector<std::shared_ptr<int>> p;
            for (int i = (int)r.below(6); i > 0; --i) { v.push_back((int)r.below(1000)); s.insert(word(r)); }
            container_to_stream(o, v, r.chance(50) ? S(";") : word(r));
            container_to_stream(o, s);
            return o.str() + generic_to_string(r.below(1000));
        },
        [](vf::Rng& r)
        {
            std::set<std::shared_ptr<int>> a, b;
            for (int i = (int)r.below(6); i > 0; --i) a.insert(std::make_shared<int>(i));
            for (int i = (int)r.below(6); i > 0; --i) b.insert(std::make_shared<int>(i));
            if (r.chance(20)) a.insert(nullptr);
            return str(are_set_of_ptr_equal(a, b)) + str(set_of_ptr_contains(a, std::make_shared<int>((int)r.below(5)))) + str(set_of_ptr_contains(a, std::shared_ptr<int>()));
        },
        [](vf::Rng& r)
        {
            std::map<int, S> m;
            std::unordered_map<S, int> u;
            std::set<Child> c;
            for (int i = (int)r.below(6); i > 0; --i) { m[(int)r.below(100)] = word(r); u[word(r)] = i; c.insert(Child((int)r.below(100))); }
            S out;
            for (int k : get_keys(m)) out += str(k) + " ";
            for (auto& k : get_keys(u)) out += k + "|";
            std::set<int> vs;
            for (auto& x : convert_set_to_shared<Base, Child>(c)) vs.insert(x->v);
            for (int k : vs) out += str(k) + " ";
            S raw = r.from("abc", 16);
            char* q = (char*)copy_to_void_ptr(raw.data(), 16);
            out += S(q, 16);
            free(q);
            return out;
        },
        [](vf::Rng& r)
        {
            TreeNode<S> t("root");
            for (int i = (int)r.below(5); i > 0; --i)
            {
                TreeNode<S> b(word(r));
                for (int k = (int)r.below(3); k > 0; --k) b.add_branch(word(r));
                if (r.chance(50)) t.add_branch(b);
                else t.add_branch(std::move(b));
            }
            S out = str(t.depth()) + str(t.leaf()) + str(t.branches().size());
            for (auto& n : t.all_nodes()) out += "(" + n.info + ")";
            return out;
        },
        // One tree that all threads look at
        [](vf::Rng& r)
        {
            static const TreeNode<S> shared = []
            {
                TreeNode<S> t("the root of a tree that all look at"), b("a branch of a tree that all look at");
                for (int i = 0; i < 3; ++i) { b.add_branch("leaf " + str(i)); t.add_branch(b); }
                return t;
            }();
            S out = str(shared.depth()) + str(shared.leaf()) + str(shared.branches().size());
            if (r.chance(20)) for (auto& n : shared.all_nodes()) out += "(" + n.info + ")";
            if (r.chance(20)) { TreeNode<S> copy(shared); out += str(copy.depth()) + copy.info; }
            return out;
        },
    };
}
#elif VF_PART == 25
static std::vector<Job> jobs()
{
    return {
        [](vf::Rng& r)
        {
            ReturnCode a((ReturnCode::ReturnCodeValue)r.below(6)), b((eprosima::fastdds::dds::ReturnCode_t)r.below(16));
            return str(a) + " " + str(b) + " " + str(a()) + str(b()) + str(a == b) + str(a < b) + str(!a) + str(a != ReturnCode::RETCODE_OK);
        },
        [](vf::Rng& r) { return qos_policy_id_to_string((eprosima::fastdds::dds::QosPolicyId_t)r.below(40)); },
        [](vf::Rng& r) { return qos_policy_mask_to_string(eprosima::fastdds::dds::PolicyMask(r.next() & 0x1fffffffu)); },
    };
}
#elif VF_PART == 26
static std::vector<Job> jobs()
{
    auto name = [](vf::Rng& r) { return r.pick(std::vector<S>{"rt", "rq", "rr", "rp", ""}) + "/" + r.from("ab/_", r.below(20)) + r.pick(std::vector<S>{"Request", "Reply", ""}); };
    auto type = [](vf::Rng& r) { return r.from("ab", 1 + r.below(12)) + r.pick(std::vector<S>{"::msg::", "/msg/", "::srv::", "/srv/"}) + r.pick(std::vector<S>{"dds_::", ""}) + r.from("XY", 1 + r.below(12)) + r.pick(std::vector<S>{"_", "_Request_", "_Response_", ""}); };
    return {
        [=](vf::Rng& r) { S n = name(r); return demangle_if_ros_topic(n) + "|" + mangle_if_ros_topic(n) + "|" + get_ros_prefix_if_exists(n) + "|" + remove_ros_prefix_if_exists(n) + "|" + str(get_all_ros_prefixes().size()) + get_all_ros_prefixes().back(); },
        [=](vf::Rng& r) { S n = type(r); return demangle_if_ros_type(n) + "|" + mangle_if_ros_type(n) + "|" + demangle_service_type_only(n) + "|" + mangle_service_type_only(n); },
        [=](vf::Rng& r) { S n = name(r); return demangle_ros_topic_prefix_from_topic(n) + "|" + demangle_ros_service_prefix_from_topic(n) + "|" + demangle_ros_service_request_prefix_from_topic(n) + "|" + demangle_ros_service_reply_prefix_from_topic(n); },
        [=](vf::Rng& r) { S n = name(r); return mangle_ros_service_request_prefix_in_topic(n) + "|" + mangle_ros_service_reply_prefix_in_topic(n) + "|" + add_ros_topic_prefix(n) + "|" + add_ros_service_requester_prefix(n) + "|" + add_ros_service_response_prefix(n) + "|" + remove_prefix(n, "rt") + "|" + add_prefix(n, "rq") + "|" + add_suffix(n, "Reply"); },
    };
}
#elif VF_PART == 28
static S g_dir;
static S file_name(int i) { return g_dir + "/f" + std::to_string(i); }
static void prepare()
{
    const char* t = getenv("VF_TMP");
    g_dir = S(t ? t : "/tmp") + "/threads" + std::to_string(getpid());
    mkdir(g_dir.c_str(), 0755);
    vf::Rng r(vf::S().seed + 77);
    for (int i = 0; i < 6; ++i)
    {
        S text;
        for (int k = (int)r.below(i == 5 ? 3000 : 12); k > 0; --k) text += r.from("abc \r", r.below(i == 4 ? 5000 : 30)) + (r.chance(30) ? "\r\n" : "\n");
        int f = open(file_name(i).c_str(), O_WRONLY | O_CREAT | O_TRUNC, i == 3 ? 0755 : 0644);
        if (write(f, text.data(), text.size()) < 0) abort();
        close(f);
    }
}
static void clean()
{
    for (int i = 0; i < 6; ++i) unlink(file_name(i).c_str());
    rmdir(g_dir.c_str());
}
static std::vector<Job> jobs()
{
    return {
        [](vf::Rng& r) { S n = file_name((int)r.below(8)); bool c = r.chance(50); return refused([&] { return file_to_string(n.c_str(), c); }); },
        [](vf::Rng& r) { S n = file_name((int)r.below(8)), out; bool c = r.chance(50), e = r.chance(50); return refused([&] { for (auto& l : file_to_strings(n.c_str(), c, e)) out += "[" + l + "]"; return out; }); },
        [](vf::Rng& r) { S out; for (auto m : {FileAccessMode::exist, FileAccessMode::read, FileAccessMode::exec, FileAccessMode::read_exec}) out += str(is_file_accessible(file_name((int)r.below(8)).c_str(), m)); return out; },
    };
}
#elif VF_PART == 30
static std::vector<Job> jobs()
{
    return {
        [](vf::Rng& r)
        {
            S m = word(r);
            int k = (int)r.below(1000);
            return refused([&]() -> S
                    {
                        switch (k % 4)
                        {
                            case 0: throw ConfigurationException(m);
                            case 1: throw InconsistencyException(STR_ENTRY << m << k << true << 2.5 << "end");
                            case 2: throw InitializationException(Formatter() << m << std::hex << k);
                            default: throw ConfigurationException(Formatter() << m);
                        }
                    });
        },
        [](vf::Rng& r)
        {
            Formatter f;
            for (int i = (int)r.below(10); i > 0; --i) r.chance(50) ? f << word(r) : f << r.below(1u << 20);
            Formatter g;
            g << 0.25 << " and " << 'c';
            return f.to_string() + str(f) + g.to_string();
        },
        [](vf::Rng& r)
        {
            ConfigurationException a(word(r)), b(a), c(word(r));
            c = b;
            return S(a.what()) + b.what() + c.what();
        },
        // An exception and a formatter that all threads read
        [](vf::Rng& r)
        {
            static const std::exception_ptr p = std::make_exception_ptr(InconsistencyException("the text of an exception that all threads have"));
            static const InitializationException e(Formatter() << "the text of another exception " << 12345);
            static const Formatter f = [] { Formatter g; g << "a text of many parts " << 1 << 2.5; return g; }();
            if (r.chance(30)) return f.to_string() + str(f) + S(f);
            if (r.chance(30)) { InitializationException c(e); return S(c.what()) + e.what(); }
            return refused([&]() -> S { std::rethrow_exception(p); }) + e.what();
        },
    };
}
#elif VF_PART == 31
static std::vector<Job> jobs()
{
    return {[](vf::Rng& r)
    {
        history::CommandHistoryHandler h;
        S out;
        for (int i = 0; i < 60; ++i)
            switch (r.below(4))
            {
                case 0: h.add_command(word(r)); break;
                case 1: out += "<" + h.get_previous_command(); break;
                case 2: out += ">" + h.get_next_command(); break;
                default: h.add_command("command " + std::to_string(i));
            }
        return out;
    }};
}
#elif VF_PART == 34
static std::vector<Job> jobs()
{
    static const option::Descriptor usage[] = {
        {0, 0, "", "", option::Arg::None, "Usage: program [options]\n\nOptions:"},
        {1, 0, "h", "help", option::Arg::None, "  -h, \t--help  \tPrint this text and nothing else."},
        {2, 0, "v", "verbose", option::Arg::Optional, "  -v[<level>], \t--verbose[=<level>]  \tSay more."},
        {3, 1, "", "file", option::Arg::Optional, "  \t--file  \tA file that is read.\vOr two."},
        {0, 0, 0, 0, 0, 0}};
    return {
        [](vf::Rng& r)
        {
            std::vector<S> args;
            for (int i = (int)r.below(8); i > 0; --i)
                args.push_back(r.pick(std::vector<S>{"-h", "-v", "-vhv", "-v3", "--help", "--verb", "--verbose=7", "--file=x", "--file", "-x", "--none", "plain", "", "-", "--", "-hv" + word(r)}));
            std::vector<const char*> a;
            for (auto& s : args) a.push_back(s.c_str());
            a.push_back(nullptr);
            bool gnu = r.chance(50);
            int abbr = r.chance(50) ? 3 : 0;
            option::Stats st(gnu, usage, (int)args.size(), a.data(), abbr);
            std::vector<option::Option> o(st.options_max), b(st.buffer_max);
            option::Parser p(gnu, usage, (int)args.size(), a.data(), o.data(), b.data(), abbr);
            S out = str(p.error()) + str(p.optionsCount()) + ":";
            for (int i = 0; i < p.optionsCount(); ++i) out += str(b[(size_t)i].index()) + b[(size_t)i].name + "=" + (b[(size_t)i].arg ? b[(size_t)i].arg : "none") + " ";
            for (int i = 0; i < 4; ++i) out += str(o[(size_t)i].count());
            for (int i = 0; i < p.nonOptionsCount(); ++i) out += S("[") + p.nonOption(i) + "]";
            return out;
        },
        [](vf::Rng& r)
        {
            std::ostringstream o;
            option::printUsage(o, usage, (int)(20 + r.below(80)), (int)(20 + r.below(80)));
            return o.str();
        },
    };
}
#endif

int main(int argc, char** argv)
{
    vf::init(argc, argv);
#if VF_PART == 28
    prepare();
#endif
    static const auto js = jobs();
    const bool tsan = vf::S().tool == "tsan";
    vf::batches("threads", tsan ? 12 : 24, [&](vf::Rng& r)
            {
                const unsigned n = 3 + (unsigned)r.below(4), calls = VF_PART == 18 ? 4 : tsan ? 60 : 300;
                const bool same = r.chance(40);             // all threads make the same calls
                struct Call { size_t job; uint64_t seed; S got; };
                std::vector<std::vector<Call>> todo(n);
                for (unsigned i = 0; i < calls; ++i)
                {
                    Call c{r.below(js.size()), r.next(), ""};
                    for (auto& t : todo)
                    {
                        t.push_back(c);
                        if (!same) c = Call{r.below(js.size()), r.next(), ""};
                    }
                }
                std::atomic<unsigned> ready{0};
                std::vector<std::thread> v;
                for (auto& t : todo)
                    v.emplace_back([&]
                            {
                                ++ready;
                                while (ready < n) {}
                                for (auto& c : t) { vf::Rng q(c.seed); c.got = js[c.job](q); }
                            });
                for (auto& t : v) t.join();
                for (auto& t : todo)
                    for (auto& c : t)
                    {
                        vf::Rng q(c.seed);
                        S alone = js[c.job](q);
                        VF_CHECK(c.got == alone, "not-alone", "job " << c.job << " gave " << vf::show(c.got) << " while other threads were calling, and " << vf::show(alone) << " alone");
                        vf::count("steps");
                        vf::count("together");
                        vf::seen("sequences", vf::hash_str(c.got, vf::mix(c.job + 1000)));
                    }
            }, 120);
#if VF_PART == 28
    clean();
#endif
    return vf::finish();
}
