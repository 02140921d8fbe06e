// P25: return codes and names of QoS policies, all of them and all pairs; random masks.
#include <vf.hpp>
#include <climits>
#include <cpp_utils/ReturnCode.hpp>
#include <cpp_utils/qos/qos_utils.hpp>

using namespace eprosima::utils;
namespace dds = eprosima::fastdds::dds;
using S = std::string;
using V = ReturnCode::ReturnCodeValue;

const std::vector<V> VALUES{ReturnCode::RETCODE_OK, ReturnCode::RETCODE_ERROR, ReturnCode::RETCODE_UNKNOWN, ReturnCode::RETCODE_NO_DATA, ReturnCode::RETCODE_NOT_ENABLED,
    ReturnCode::RETCODE_PRECONDITION_NOT_MET};
const std::vector<S> NAMES{"ok", "error", "unknown", "nodata", "notenabled", "preconditionnotmet"};
static_assert(!std::is_convertible<ReturnCode, bool>::value && !std::is_constructible<bool, ReturnCode>::value, "a code is not a boolean, as OK is 0");

S letters(const S& s)
{
    S r;
    for (char c : s) if (isalnum((unsigned char)c)) r += (char)tolower(c);
    return r;
}
S text(const ReturnCode& c)
{
    std::ostringstream o;
    std::ostream& b = o << c;
    VF_CHECK(&b == &o, "print", "another stream was returned");
    return o.str();
}
// What each code of DDS stands for
V meaning(dds::ReturnCode_t n)
{
    switch (n)
    {
        case 0: return ReturnCode::RETCODE_OK;
        case 11: return ReturnCode::RETCODE_NO_DATA;
        case 6: return ReturnCode::RETCODE_NOT_ENABLED;
        case 4: return ReturnCode::RETCODE_PRECONDITION_NOT_MET;
        case 1: case 2: case 3: case 5: case 7: case 8: case 9: case 10: case 12: return ReturnCode::RETCODE_ERROR;
        default: return ReturnCode::RETCODE_UNKNOWN;
    }
}
void one(const ReturnCode& c, V v, const S& how)
{
    VF_CHECK(c() == (uint32_t)v, "value", how << " is " << c() << " instead of " << v);
    VF_CHECK((!c) == (v != ReturnCode::RETCODE_OK), "not", "!" << how << " is " << !c);
    for (size_t i = 0; i < VALUES.size(); ++i)
    {
        bool e = VALUES[i] == v;
        VF_CHECK((c == VALUES[i]) == e && (VALUES[i] == c) == e && (c != VALUES[i]) == !e && (VALUES[i] != c) == !e, "equal", how << " and " << NAMES[i] << " equal: " << !e);
        if (e) VF_CHECK(letters(text(c)) == NAMES[i], "print", how << " is printed as " << text(c));
    }
    vf::count("steps");
}
void two(const ReturnCode& a, const ReturnCode& b)
{
    bool e = a() == b();
    VF_CHECK((a == b) == e && (b == a) == e && (a != b) == !e, "equal", a() << " and " << b() << " equal: " << !e);
    VF_CHECK((a < b) == (a() < b()) && !(a < b && b < a), "less", a() << " less than " << b() << ": " << (a < b));
    VF_CHECK((text(a) == text(b)) == e, "print", text(a) << " and " << text(b));
    vf::count("steps");
}
void codes(vf::Rng& r)
{
    one(ReturnCode(), ReturnCode::RETCODE_OK, "default");
    std::vector<dds::ReturnCode_t> ns;
    for (int n = -3; n < 20; ++n) ns.push_back(n);
    for (int i = 0; i < 300; ++i)
    {
        auto n = (dds::ReturnCode_t)r.next();
        ns.push_back(r.chance(50) ? n >> r.below(32) : n);
    }
    for (auto n : {INT_MAX, INT_MIN, 256, 260, 65536, 1000}) ns.push_back(n);
    std::vector<ReturnCode> all;
    for (auto n : ns)
    {
        ReturnCode c(n), d = c, e, f(ReturnCode::RETCODE_NO_DATA);
        e = c;
        f = std::move(d);
        S how = "code made from " + std::to_string(n);
        one(c, meaning(n), how);
        one(e, meaning(n), how + ", assigned");
        one(f, meaning(n), how + ", moved");
        e = n;
        one(e, meaning(n), how + ", assigned as a number");
        all.push_back(c);
        vf::seen("sequences", vf::mix(1000 + (uint64_t)(uint32_t)n));
    }
    for (auto v : VALUES)
    {
        ReturnCode c(v), e;
        one(c, v, "code made from a value");
        e = v;
        one(e, v, "code a value was assigned to");
        all.push_back(c);
    }
    for (int i = 0; i < 2000; ++i) two(r.pick(all), r.pick(all));
    for (auto& a : all) two(a, a);
    std::set<ReturnCode> s(all.begin(), all.end());
    VF_CHECK(s.size() == VALUES.size(), "less", s.size() << " different codes in a set");
}

#define POLICIES(P) P(USERDATA) P(DURABILITY) P(PRESENTATION) P(DEADLINE) P(LATENCYBUDGET) P(OWNERSHIP) P(OWNERSHIPSTRENGTH) P(LIVELINESS) P(TIMEBASEDFILTER) \
    P(PARTITION) P(RELIABILITY) P(DESTINATIONORDER) P(HISTORY) P(RESOURCELIMITS) P(ENTITYFACTORY) P(WRITERDATALIFECYCLE) P(READERDATALIFECYCLE) P(TOPICDATA) \
    P(GROUPDATA) P(TRANSPORTPRIORITY) P(LIFESPAN) P(DURABILITYSERVICE) P(DATAREPRESENTATION) P(TYPECONSISTENCYENFORCEMENT) P(DISABLEPOSITIVEACKS) \
    P(PARTICIPANTRESOURCELIMITS) P(PROPERTYPOLICY) P(PUBLISHMODE) P(READERRESOURCELIMITS) P(RTPSENDPOINT) P(RTPSRELIABLEREADER) P(RTPSRELIABLEWRITER) \
    P(TRANSPORTCONFIG) P(TYPECONSISTENCY) P(WIREPROTOCOLCONFIG) P(WRITERRESOURCELIMITS)
struct Policy { dds::QosPolicyId_t id; const char* name; };
const std::vector<Policy> ALL{
#define P(x) {dds::x##_QOS_POLICY_ID, #x},
    POLICIES(P)
#undef P
};
S invalid() { return qos_policy_id_to_string(dds::INVALID_QOS_POLICY_ID); }
void policies(vf::Rng& r)
{
    std::set<S> names{invalid()};
    VF_CHECK(letters(invalid()) == "invalid", "policy", "the invalid policy is called " << invalid());
    for (auto& p : ALL)
    {
        S n = qos_policy_id_to_string(p.id);
        VF_CHECK(letters(n) == letters(p.name), "policy", p.name << " is called " << n);
        VF_CHECK(names.insert(n).second, "policy-distinct", n << " is the name of two policies");
        vf::count("steps");
    }
    for (int i = 0; i < 400; ++i)
    {
        auto id = (dds::QosPolicyId_t)(uint32_t)(i < 100 ? (uint64_t)dds::NEXT_QOS_POLICY_ID + (uint64_t)i : r.next() | 64);
        VF_CHECK(qos_policy_id_to_string(id) == invalid(), "policy-unknown", "policy " << (uint32_t)id << " is called " << qos_policy_id_to_string(id));
        vf::count("steps");
    }
    for (int i = 0; i < 3000; ++i)
    {
        dds::PolicyMask m;
        std::vector<S> want;
        unsigned pc = r.chance(30) ? 3 : r.chance(20) ? 100 : 10 + (unsigned)r.below(80);
        for (auto& p : ALL)
            if (i < (int)ALL.size() ? &p == &ALL[i] : r.chance(pc))
            {
                m.set(p.id);
                want.push_back(letters(p.name));
            }
        if (i >= (int)ALL.size() && r.chance(10))
        {
            m.set(dds::INVALID_QOS_POLICY_ID);
            want.push_back("invalid");
        }
        if (want.empty()) want.push_back("invalid");
        dds::PolicyMask before = m;
        S t = qos_policy_mask_to_string(m);
        std::vector<S> got;
        size_t from = 0;
        for (size_t c; (c = t.find(", ", from)) != S::npos; from = c + 2) got.push_back(letters(t.substr(from, c - from)));
        got.push_back(letters(t.substr(from)));
        vf::seen("sequences", vf::hash_str(m.to_string()));
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        VF_CHECK(got == want && m == before, "mask", "mask " << m.to_string() << " is printed as " << t);
        vf::count("steps");
    }
    vf::sample(qos_policy_mask_to_string(dds::PolicyMask(0x1248)));
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    vf::batches("codes", 24, codes);
    vf::batches("policies", 24, policies);
    return vf::finish();
}
