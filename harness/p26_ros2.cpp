// P26: ROS 2 names against the rules of the mangling, for valid names and for strings of all kinds.
#include <vf.hpp>
#include <string>
#include <vector>
#include <cpp_utils/ros2_mangling.hpp>

using namespace eprosima::utils;
using S = std::string;
using vf::show;

bool starts(const S& s, const S& p) { return s.size() >= p.size() && s.compare(0, p.size(), p) == 0; }
bool ends(const S& s, const S& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
bool has(const S& s, const S& p) { return s.find(p) != S::npos; }
S join(const std::vector<S>& v, const S& d)
{
    S s;
    for (size_t i = 0; i < v.size(); ++i) s += (i ? d : S()) + v[i];
    return s;
}

// Names as ROS 2 allows them, biased to those that look like what the mangling adds
S segment(vf::Rng& r)
{
    static const std::vector<S> odd{"rt", "rq", "rr", "Request", "Reply", "RequestReply", "rqRequest", "msg", "srv", "dds", "action", "_action", "a_", "Response", "x", "rt2", "drt", "add_two_ints",
        "send_goal", "msgs", "rrr"};
    if (r.chance(60)) return r.pick(odd);
    S s = r.from("abcrtqRZ_", 1);
    return s + r.from("abrtq_019XYZ", r.below(r.chance(5) ? 300 : 12));
}
S topic(vf::Rng& r)
{
    S s;
    for (size_t n = 1 + r.below(r.chance(4) ? 40 : 4); n--;) s += "/" + segment(r);
    return s;
}
S package(vf::Rng& r)
{
    static const std::vector<S> odd{"std_msgs", "msg", "srv", "dds", "example_interfaces", "rq", "rr", "rt", "a", "dds_x", "x_dds", "action"};
    if (r.chance(60)) return r.pick(odd);
    return r.from("abcds", 1) + r.from("abmsg019", r.below(r.chance(5) ? 300 : 8));
}
S type(vf::Rng& r)
{
    static const std::vector<S> odd{"String", "AddTwoInts", "Request", "Reply", "Msg", "X", "Fibonacci_SendGoal", "Fibonacci_GetResult", "Empty_Request", "Empty_Response", "Response"};
    if (r.chance(50)) return r.pick(odd) + S(r.chance(8) ? 1 + r.below(3) : 0, '_');
    return r.from("ABCZ", 1) + r.from(r.chance(20) ? "abcXYZ019_" : "abcXYZ019", r.below(r.chance(5) ? 300 : 10));
}
// Anything, with the words of the mangling
S any(vf::Rng& r)
{
    static const std::vector<S> w{"rt", "rq", "rr", "/", "::", "dds_::", "dds_", "_", "msg", "srv", "/msg/", "/srv/", "Request", "Reply", "_Request_", "_Response_", "a", "B", ":", "", "rt/", "rq/", "rr/",
        "::msg::", "::srv::", " ", "\xc3\xb1"};
    if (r.chance(10)) return r.bytes(r.below(6));
    S s;
    for (size_t n = r.below(r.chance(3) ? 80 : 7); n--;) s += r.pick(w);
    return s;
}

#define IS(call, want, key, in)                                                                                           \
    do { const S got_ = (call), want_ = (want);                                                                            \
         VF_CHECK(got_ == want_, key, #call << " of " << show(in) << " is " << show(got_) << " instead of " << show(want_)); \
         vf::count("steps"); } while (0)

S prefix_of(const S& s)
{
    for (auto p : {"rt", "rq", "rr"}) if (starts(s, S(p) + "/")) return p;
    return "";
}
S service(const S& s, const S& prefix, const S& suffix)
{
    if (!starts(s, prefix + "/") || !ends(s.substr(prefix.size()), suffix)) return "";
    return s.substr(prefix.size(), s.size() - prefix.size() - suffix.size());
}
// Functions on topics, whose result is known for every string
void names(const S& s)
{
    IS(get_ros_prefix_if_exists(s), prefix_of(s), "prefix", s);
    IS(remove_ros_prefix_if_exists(s), s.substr(prefix_of(s).size()), "remove-prefix", s);
    IS(demangle_if_ros_topic(s), s.substr(prefix_of(s).size()), "demangle-topic", s);
    IS(demangle_ros_topic_prefix_from_topic(s), prefix_of(s) == "rt" ? s.substr(2) : S(), "demangle-topic", s);
    IS(mangle_if_ros_topic(s), starts(s, "/") ? "rt" + s : s, "mangle-topic", s);
    IS(add_ros_topic_prefix(s), "rt" + s, "add-prefix", s);
    IS(add_ros_service_requester_prefix(s), "rq" + s, "add-prefix", s);
    IS(add_ros_service_response_prefix(s), "rr" + s, "add-prefix", s);
    S rq = service(s, "rq", "Request"), rr = service(s, "rr", "Reply");
    IS(demangle_ros_service_request_prefix_from_topic(s), rq, "demangle-service", s);
    IS(demangle_ros_service_reply_prefix_from_topic(s), rr, "demangle-service", s);
    IS(demangle_ros_service_prefix_from_topic(s), rr.empty() ? rq : rr, "demangle-service", s);
    IS(mangle_ros_service_request_prefix_in_topic(s), starts(s, "/") ? "rq" + s + "Request" : S(), "mangle-service", s);
    IS(mangle_ros_service_reply_prefix_in_topic(s), starts(s, "/") ? "rr" + s + "Reply" : S(), "mangle-service", s);
}
// Functions on types, for strings that may not be types
void types(const S& s)
{
    const S d = demangle_if_ros_type(s), m = mangle_if_ros_type(s), ds = demangle_service_type_only(s), ms = mangle_service_type_only(s);
    if (!has(s, "dds_::") || !ends(s, "_")) VF_CHECK(d == s, "not-a-type", "demangle_if_ros_type of " << show(s) << " is " << show(d));
    size_t p = s.find("/msg/");
    if (p == S::npos || p + 5 == s.size()) VF_CHECK(m == s, "not-a-type", "mangle_if_ros_type of " << show(s) << " is " << show(m));
    if (!has(s, "dds_::") || (!ends(s, "_Request_") && !ends(s, "_Response_"))) VF_CHECK(ds == "", "not-a-type", "demangle_service_type_only of " << show(s) << " is " << show(ds));
    if (!has(s, "/srv/") || (!starts(s, "rq/") && !starts(s, "rr/"))) VF_CHECK(ms == "", "not-a-type", "mangle_service_type_only of " << show(s) << " is " << show(ms));
    vf::count("steps", 4);
}

void valid(vf::Rng& r)
{
    for (int i = 0; i < 400; ++i)
    {
        S t = topic(r);
        names(t);
        types(t);
        IS(demangle_if_ros_topic(mangle_if_ros_topic(t)), t, "inverse-topic", t);
        IS(demangle_ros_topic_prefix_from_topic(add_ros_topic_prefix(t)), t, "inverse-topic", t);
        S q = mangle_ros_service_request_prefix_in_topic(t), a = mangle_ros_service_reply_prefix_in_topic(t);
        IS(demangle_ros_service_request_prefix_from_topic(q), t, "inverse-service", t);
        IS(demangle_ros_service_reply_prefix_from_topic(a), t, "inverse-service", t);
        IS(demangle_ros_service_prefix_from_topic(q), t, "inverse-service", t);
        IS(demangle_ros_service_prefix_from_topic(a), t, "inverse-service", t);
        IS(demangle_ros_service_reply_prefix_from_topic(q), "", "inverse-service", t);
        IS(demangle_ros_service_request_prefix_from_topic(a), "", "inverse-service", t);
        names(q);
        names(a);
        // types of messages
        std::vector<S> ns{package(r)};
        while (r.chance(15)) ns.push_back(package(r));
        S n = type(r), ros = join(ns, "/") + "/msg/" + n, dds = join(ns, "::") + "::msg::dds_::" + n + "_";
        bool first = join(ns, "/").find("/msg") == S::npos;           // msg is not one of the packages, but the last
        if (first)
        {
            IS(mangle_if_ros_type(ros), dds, "mangle-type", ros);
            IS(demangle_if_ros_type(dds), ros, "demangle-type", dds);
        }
        IS(demangle_if_ros_type(ros), ros, "not-a-type", ros);
        IS(mangle_if_ros_type(dds), dds, "not-a-type", dds);
        // types of services
        for (int k = 0; k < 2; ++k)
        {
            S pre = k ? "rq" : "rr", suf = k ? "_Request_" : "_Response_";
            S sros = pre + "/" + join(ns, "/") + "/srv/" + n, sdds = pre + "::" + join(ns, "::") + "::srv::dds_::" + n + suf;
            if (("/" + join(ns, "/")).find("/srv") == S::npos)
            {
                IS(mangle_service_type_only(sros), sdds, "mangle-service-type", sros);
                IS(demangle_service_type_only(sdds), sros, "demangle-service-type", sdds);
            }
            S plain = join(ns, "::") + "::srv::dds_::" + n + suf;
            IS(demangle_service_type_only(plain), join(ns, "/") + "/srv/" + n, "demangle-service-type", plain);
            // the suffix is not at the end
            S more = sdds + r.from("ab_:", 1 + r.below(3));
            if (!ends(more, "_Request_") && !ends(more, "_Response_")) IS(demangle_service_type_only(more), "", "half-converted", more);
            types(sdds);
            types(more);
        }
        types(ros);
        types(dds);
        vf::seen("sequences", vf::hash_str(t + ros));
    }
}
void anything(vf::Rng& r)
{
    for (int i = 0; i < 1500; ++i)
    {
        S s = any(r), p = r.chance(50) ? any(r) : s.substr(0, r.below(s.size() + 1));
        names(s);
        types(s);
        IS(remove_prefix(s, p), starts(s, p + "/") ? s.substr(p.size()) : S(), "remove-prefix", s);
        IS(add_prefix(s, p), p + s, "add-prefix", s);
        IS(add_suffix(s, p), s + p, "add-suffix", s);
        vf::seen("sequences", vf::hash_str(s));
    }
    names("");
    types("");
    VF_CHECK(get_all_ros_prefixes() == (std::vector<S>{"rt", "rq", "rr"}), "prefix", "prefixes");
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    vf::batches("valid", 60, valid);
    vf::batches("anything", 60, anything);
    return vf::finish();
}
