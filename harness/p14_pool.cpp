// P14: UnboundedPool against a model of what is free and what is lent, with creations that fail now and then.
#include <vf.hpp>
#include <cpp_utils/exception/InconsistencyException.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/pool/UnboundedPool.hpp>

using namespace eprosima::utils;

struct Obj
{
    vf::Live<Obj> live;
    std::string data = "initial data of a pooled object on the heap";
    bool clean = true;
    int id = -1;
    bool custom = false;
};
struct Mon
{
    long created = 0, deleted = 0, reset = 0;
    long fail_at = -1;            // creation that throws
};
struct Boom {};

// As the documentation asks: calls initialize_vector_ in its constructor
struct Pool : UnboundedPool<Obj>
{
    Mon& m;
    Pool(PoolConfiguration c, Mon& mon) : UnboundedPool<Obj>(c), m(mon) { initialize_vector_(); }
    Obj* new_element_() override
    {
        if (m.created == m.fail_at)
        {
            m.fail_at = -1;
            throw Boom();
        }
        Obj* o = new Obj();
        o->id = (int)m.created++;
        return o;
    }
    // Set for one return: the reset fails, or uses the pool itself
    bool fail_reset = false;
    std::function<void(Obj*)> within_reset;
    void reset_element_(Obj* o) override
    {
        if (fail_reset)
        {
            fail_reset = false;
            throw Boom();
        }
        if (within_reset)
        {
            auto f = std::move(within_reset);
            within_reset = nullptr;
            f(o);
        }
        ++m.reset;
        o->clean = true;
        o->data = "initial data of a pooled object on the heap";
    }
};
// Objects made in a way of its own, and so to be deleted by its delete_element_
struct Custom : UnboundedPool<Obj>
{
    static long& deleted() { static long n = 0; return n; }
    explicit Custom(PoolConfiguration c) : UnboundedPool<Obj>(c) { initialize_vector_(); }
    Obj* new_element_() override { Obj* o = new Obj(); o->custom = true; return o; }
    void delete_element_(Obj* o) override { ++deleted(); delete o; }
};

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    vf::batches("sequence", 600, [](vf::Rng& r)
            {
                long live0 = vf::Live<Obj>::n();
                PoolConfiguration c;
                c.initial_size = (unsigned)r.pick(std::vector<int>{0, 0, 1, 2, 3, 10, 100, 1500});
                c.batch_size = (unsigned)r.pick(std::vector<int>{1, 1, 2, 3, 7, 50, 300});
                c.maximum_size = (unsigned)r.below(3);
                if (r.chance(30)) c = PoolConfiguration(c.initial_size, c.maximum_size, c.batch_size);
                Mon m;
                bool faults = r.chance(40);
                uint64_t hash = 0;
                std::vector<Obj*> lent;
                {
                    Pool p(c, m);
                    VF_CHECK(m.created == (long)c.initial_size, "initial-size", m.created << " objects created instead of " << c.initial_size);
                    std::set<Obj*> known_free;     // returned, not lent again
                    std::set<Obj*> lent_set;
                    long returned_free = 0;
                    unsigned bias = (unsigned)r.range(20, 80);
                    int n = (int)r.range(20, r.chance(3) ? 6000 : 400);
                    for (int i = 0; i < n; ++i)
                    {
                        if (r.chance(4)) bias = (unsigned)r.range(10, 90);
                        if (r.chance(bias) || lent.empty())
                        {
                            long before = m.created, free_now = m.created - (long)lent.size();
                            if (faults && r.chance(20)) m.fail_at = m.created + (long)r.below(c.batch_size);
                            Obj* o = nullptr;
                            bool ok = false, threw = false;
                            try
                            {
                                ok = p.loan(o);
                            }
                            catch (const Boom&)
                            {
                                threw = true;
                            }
                            m.fail_at = -1;
                            if (threw)
                            {
                                VF_CHECK(free_now == 0, "created-needlessly", "creation while " << free_now << " objects were free");
                                hash = vf::mix(hash ^ 77);
                                vf::count("failed_creations");
                                continue;
                            }
                            VF_CHECK(ok && o, "no-object", "loan gave nothing");
                            if (!o) continue;
                            VF_CHECK(!lent_set.count(o), "lent-twice", "object " << o->id << " delivered while it is lent out");
                            VF_CHECK(o->live.ok() && o->clean && o->data == "initial data of a pooled object on the heap", "not-reset", "object " << o->id << " delivered with the data of its last use");
                            long want = free_now > 0 ? 0 : (long)c.batch_size;
                            VF_CHECK(m.created - before == want, free_now > 0 ? "created-needlessly" : "batch-size",
                                    m.created - before << " objects created with " << free_now << " free and batches of " << c.batch_size);
                            lent_set.insert(o);
                            lent.push_back(o);
                            o->clean = false;
                            o->data = "used " + std::to_string(i) + " times, somewhere on the heap too";
                            hash = vf::mix(hash ^ (uint64_t)o->id);
                        }
                        else
                        {
                            size_t k = r.below(lent.size());
                            Obj* o = lent[k];
                            if (faults && r.chance(10))
                            {
                                // the reset fails: not returned, and so it is not delivered until it is
                                p.fail_reset = true;
                                bool threw = false;
                                try
                                {
                                    p.return_loan(o);
                                }
                                catch (const Boom&)
                                {
                                    threw = true;
                                }
                                VF_CHECK(threw, "reset-failure-hidden", "");
                                hash = vf::mix(hash ^ 5);
                                vf::count("failed_resets");
                                continue;
                            }
                            if (r.chance(6) && lent.size() > 1)
                            {
                                // an object that gives back another one, or takes one, while it is reset
                                bool give = r.chance(50);
                                size_t k2 = (k + 1) % lent.size();
                                Obj* other = lent[k2];
                                Obj* got = nullptr;
                                p.within_reset = [&](Obj* self)
                                        {
                                            VF_CHECK(self == o, "reset-other", "");
                                            if (give) p.return_loan(other);
                                            else p.loan(got);
                                        };
                                VF_CHECK(p.return_loan(o), "return", "return_loan returned false");
                                p.within_reset = nullptr;
                                lent_set.erase(o);
                                if (!give)
                                {
                                    VF_CHECK(got && got != o, "lent-twice", "object delivered before its reset ended");
                                    VF_CHECK(!got || !lent_set.count(got), "lent-twice", "");
                                    if (got && got != o)
                                    {
                                        lent_set.insert(got);
                                        got->clean = false;
                                        got->data = "used";
                                        lent[k] = got;
                                    }
                                    else lent.erase(lent.begin() + (long)k);
                                }
                                else
                                {
                                    lent_set.erase(other);
                                    lent.erase(lent.begin() + (long)std::max(k, k2));
                                    lent.erase(lent.begin() + (long)std::min(k, k2));
                                }
                                hash = vf::mix(hash ^ 9);
                                vf::count("nested_resets");
                                continue;
                            }
                            long resets = m.reset;
                            VF_CHECK(p.return_loan(o), "return", "return_loan returned false");
                            VF_CHECK(m.reset == resets + 1, "reset", "object not reset once when returned");
                            lent_set.erase(o);
                            lent.erase(lent.begin() + (long)k);
                            hash = vf::mix(hash ^ 3);
                        }
                        (void)returned_free;
                        VF_CHECK(vf::Live<Obj>::n() - live0 == m.created, "destroyed-early", vf::Live<Obj>::n() - live0 << " objects alive of " << m.created);
                        vf::count("steps");
                    }
                    // returned more than lent: refused, and nothing changes
                    if (r.chance(30))
                    {
                        while (!lent.empty())
                        {
                            p.return_loan(lent.back());
                            lent_set.erase(lent.back());
                            lent.pop_back();
                        }
                        Obj other;
                        bool threw = false;
                        try
                        {
                            p.return_loan(&other);
                        }
                        catch (const InconsistencyException&)
                        {
                            threw = true;
                        }
                        VF_CHECK(threw, "returned-too-many", "accepted");
                        Obj* o = nullptr;
                        p.loan(o);
                        VF_CHECK(o && o != &other, "lent-foreign", "");
                        lent.push_back(o);
                    }
                }
                VF_CHECK(vf::Live<Obj>::n() - live0 == (long)lent.size(), "not-destroyed", vf::Live<Obj>::n() - live0 << " objects alive after the pool, " << lent.size() << " lent");
                for (auto* o : lent)
                {
                    VF_CHECK(o->live.ok(), "destroyed-lent", "");
                    delete o;
                }
                vf::seen("sequences", hash);
            });

    vf::batches("plain", 60, [](vf::Rng& r)
            {
                // the pool itself, and the one that create_pool makes, used through the interface
                long live0 = vf::Live<Obj>::n();
                PoolConfiguration c((unsigned)r.below(4), 0, (unsigned)r.range(1, 4));
                std::unique_ptr<IPool<Obj>> p(r.chance(50) ? create_pool<Obj>(c) : new UnboundedPool<Obj>(c));
                std::set<Obj*> lent;
                for (int i = 0; i < 60; ++i)
                {
                    if (r.chance(55) || lent.empty())
                    {
                        Obj* o = nullptr;
                        VF_CHECK(p->loan(o) && o, "no-object", "");
                        VF_CHECK(lent.insert(o).second, "lent-twice", "");
                        VF_CHECK(o->live.ok(), "lent-dead", "");
                    }
                    else
                    {
                        VF_CHECK(p->return_loan(*lent.begin()), "return", "");
                        lent.erase(lent.begin());
                    }
                    vf::count("steps");
                }
                for (auto* o : lent) p->return_loan(o);
                p.reset();
                VF_CHECK(vf::Live<Obj>::n() == live0, "not-destroyed", vf::Live<Obj>::n() - live0 << " objects left");
            });

    vf::batches("many", 12, [](vf::Rng& r)
            {
                // Many at once, more than once: no object is deleted or made again while there are others
                long live0 = vf::Live<Obj>::n();
                long n = (long)r.range(vf::S().thorough ? 20000 : 5000, vf::S().thorough ? 140000 : 20000);
                Mon m;
                std::vector<Obj*> lent;
                {
                    Pool p(PoolConfiguration((unsigned)r.pick(std::vector<int>{0, 0, 1, 5000, 66000}), 0, (unsigned)r.pick(std::vector<int>{1, 1, 10, 4097, 10000})), m);
                    for (int round = 0; round < 3; ++round)
                    {
                        long before = m.created;
                        long many = round ? (long)r.range(1, (int)std::min(n, before)) : n;
                        for (long i = 0; i < many; ++i)
                        {
                            Obj* o = nullptr;
                            VF_CHECK(p.loan(o) && o, "no-object", "loan " << i << " gave nothing");
                            if (!o) return;
                            VF_CHECK(o->live.ok() && o->clean, o->live.ok() ? "lent-twice" : "lent-dead", "object " << o->id << " of " << m.created);
                            o->clean = false;
                            lent.push_back(o);
                        }
                        if (round) VF_CHECK(m.created == before, "created-needlessly", m.created - before << " objects created with " << before << " free");
                        if (r.chance(50)) std::reverse(lent.begin(), lent.end());
                        for (auto* o : lent) VF_CHECK(p.return_loan(o), "return", "return_loan returned false");
                        lent.clear();
                        VF_CHECK(vf::Live<Obj>::n() - live0 == m.created, "destroyed-early", vf::Live<Obj>::n() - live0 << " objects alive of " << m.created);
                        vf::count("steps", (uint64_t)many * 2);
                    }
                }
                VF_CHECK(vf::Live<Obj>::n() == live0, "not-destroyed", vf::Live<Obj>::n() - live0 << " objects left");
            }, 120);

    vf::batches("configuration", 4, [](vf::Rng&)
            {
                Mon m;
                PoolConfiguration d;
                VF_CHECK(d.initial_size == 0 && d.maximum_size == 0 && d.batch_size == 1, "configuration-default", "");
                PoolConfiguration c(3, 5, 0);
                VF_CHECK(c.initial_size == 3 && c.maximum_size == 5 && c.batch_size == 0, "configuration", "");
                long live0 = vf::Live<Obj>::n();
                bool threw = false;
                try
                {
                    Pool p(c, m);
                }
                catch (const InitializationException&)
                {
                    threw = true;
                }
                VF_CHECK(threw, "batch-size-0", "accepted");
                VF_CHECK(vf::Live<Obj>::n() == live0 && m.created == 0, "batch-size-0", "objects created");
                vf::count("steps");
            });

    vf::batches("custom-deletion", 4, [](vf::Rng& r)
            {
                Custom::deleted() = 0;
                long n = (long)r.range(1, 5);
                {
                    Custom p(PoolConfiguration((unsigned)n, 0, 1));
                }
                VF_CHECK(Custom::deleted() == n, "known-delete-element", "delete_element_ of the derived pool called " << Custom::deleted() << " times for " << n << " objects");
                vf::count("steps");
            });
    return vf::finish();
}
