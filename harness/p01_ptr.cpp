// P01: OwnerPtr / LesseePtr / GuardedPtr.
// Monitor: a table beside the objects records, for every object, the holders (guards that exist), and the calls of its
// deleter; the deleter asserts that nobody holds the object.
#include <vf.hpp>
#include <cpp_utils/memory/owner_ptr.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/exception/ValueAccessException.hpp>

using namespace eprosima::utils;

namespace t {

struct Entry
{
    std::atomic<int> holders{0}, deleted{0}, destroyed{0};
    std::atomic<void*> ptr{nullptr};
};
constexpr int MAX = 512;
struct Table
{
    Entry e[MAX];
    std::atomic<int> n{0};
};

struct Obj
{
    Table* tab;
    int id;
    uint64_t value;
    std::string text;
    Obj(Table* t, int i) : tab(t), id(i), value(vf::mix(i)), text("object number " + std::to_string(i) + " of this table")
    {
    }
    ~Obj()
    {
        tab->e[id].destroyed.fetch_add(1, std::memory_order_relaxed);
        value = 0;
    }
    bool ok() const
    {
        return value == vf::mix(id) && text.size() > 20;
    }
    uint64_t slow_use()
    {
        // uses the object over some time
        uint64_t r = 0;
        for (int i = 0; i < 4; ++i)
        {
            vf_sched_point(1);
            r += value;
            if (!ok()) return 0;
        }
        return r;
    }
};

struct Made { Obj* p; int id; std::function<void(Obj*)> del; };

Made make(Table& tab)
{
    int id = tab.n.fetch_add(1);
    Obj* p = new Obj(&tab, id);
    Table* tp = &tab;
    tab.e[id].ptr.store(p, std::memory_order_relaxed);
    return {p, id, [tp, id](Obj* x)
            {
                Entry& e = tp->e[id];
                VF_CHECK(x == e.ptr.load(std::memory_order_relaxed), "deleter-other-pointer", "deleter called with another pointer");
                VF_CHECK(e.holders.load(std::memory_order_relaxed) == 0, "deleted-while-held", "object " << id << " deleted while " << e.holders.load() << " guards exist");
                VF_CHECK(e.deleted.fetch_add(1, std::memory_order_relaxed) == 0, "deleted-twice", "object " << id);
                vf_sched_point(2);
                VF_CHECK(e.holders.load(std::memory_order_relaxed) == 0, "deleted-while-held", "object " << id << " guard taken during deletion");
                if (e.deleted.load(std::memory_order_relaxed) == 1) delete x;
            }};
}

// Guard with its entry in the table
struct Hold
{
    Table& tab;
    GuardedPtr<Obj> g;
    int id = -1;
    Hold(Table& t, GuardedPtr<Obj>&& x) : tab(t), g(std::move(x))
    {
        if (g)
        {
            id = g->id;
            tab.e[id].holders.fetch_add(1, std::memory_order_relaxed);
            check();
        }
    }
    void check()
    {
        if (id < 0) return;
        VF_CHECK(tab.e[id].deleted.load(std::memory_order_relaxed) == 0, "guard-over-deleted", "guard exists over deleted object " << id);
        VF_CHECK((bool)g, "guard-turned-empty", "a usable guard turned empty");
        VF_CHECK(g->ok() && (*g).ok() && g.get() == tab.e[id].ptr.load(std::memory_order_relaxed), "guard-bad-object", "guard does not show the live object");
    }
    ~Hold()
    {
        if (id >= 0)
        {
            check();
            tab.e[id].holders.fetch_sub(1, std::memory_order_relaxed);
        }
    }
};

void all_destroyed(Table& tab, const char* where)
{
    for (int i = 0; i < tab.n; ++i)
    {
        VF_CHECK(tab.e[i].deleted == 1 && tab.e[i].destroyed == 1, "not-destroyed-once", where << ": object " << i << " deleted " << tab.e[i].deleted << " times");
    }
    vf::count("objects", tab.n);
}

void user(Table& tab, const LesseePtr<Obj>& lessee, vf::Rng r, int times)
{
    bool gone = false;
    for (int i = 0; i < times; ++i)
    {
        switch (r.below(4))
        {
            case 0:
            {
                Hold h(tab, lessee.lock());
                VF_CHECK(!(gone && h.id >= 0), "valid-again", "lock() succeeded after it had failed");
                if (h.id < 0) gone = true;
                vf_sched_point(3);
                h.check();
                vf_sched_point(4);
                vf::count(h.id >= 0 ? "lock_ok" : "lock_empty");
                break;
            }
            case 1:
            {
                try
                {
                    Hold h(tab, lessee.lock_with_exception());
                    VF_CHECK(h.id >= 0, "exception-form-empty", "lock_with_exception returned an empty guard");
                    VF_CHECK(!gone, "valid-again", "lock_with_exception succeeded after a failure");
                    vf_sched_point(5);
                    h.check();
                }
                catch (const ValueAccessException&)
                {
                    gone = true;
                }
                break;
            }
            case 2:
            {
                try
                {
                    uint64_t v = lessee->slow_use();
                    VF_CHECK(v != 0, "arrow-dead-object", "object used through operator-> was destroyed during the use");
                    VF_CHECK(!gone, "valid-again", "operator-> succeeded after a failure");
                }
                catch (const ValueAccessException&)
                {
                    gone = true;
                }
                break;
            }
            case 3:
            {
                bool b = lessee;
                VF_CHECK(!(gone && b), "valid-again", "operator bool true after the lease was invalid");
                if (!b) gone = true;
                LesseePtr<Obj> copy(lessee);
                Hold h(tab, copy.lock());
                VF_CHECK(!(gone && h.id >= 0), "valid-again", "a copy locked after the original was invalid");
                break;
            }
        }
    }
}

} // namespace t
using namespace t;

// --- concurrent scenarios

void concurrent()
{
    vf::Opt o;
    vf::explore("lock-vs-reset", o, [](vf::Exec& e)
            {
                Table tab;
                {
                    auto m = make(tab);
                    OwnerPtr<Obj> owner(m.p, m.del);
                    LesseePtr<Obj> l1 = owner.lease(), l2 = owner.lease();
                    vf::Rng r1(e.rng.next()), r2(e.rng.next());
                    e.par({[&]{ owner->slow_use(); owner.reset();
                                VF_CHECK(tab.e[0].deleted == 1, "reset-returned-before-delete", "reset returned and the object was not deleted");
                                VF_CHECK(!owner && owner == nullptr && nullptr == owner, "owner-not-empty", "owner holds data after reset"); },
                           [&]{ user(tab, l1, r1, 4); },
                           [&]{ user(tab, l2, r2, 4); }});
                    VF_CHECK(!l1 && !l2.lock() && l1.lock() == nullptr, "lease-valid-after-reset", "");
                }
                all_destroyed(tab, "reset");
            });
    vf::explore("lock-vs-destroy", o.r(100), [](vf::Exec& e)
            {
                Table tab;
                LesseePtr<Obj> l1;
                {
                    auto m = make(tab);
                    std::unique_ptr<OwnerPtr<Obj>> owner(new OwnerPtr<Obj>(m.p, m.del));
                    l1 = owner->lease();
                    LesseePtr<Obj> l2 = l1;
                    vf::Rng r1(e.rng.next()), r2(e.rng.next());
                    e.par({[&]{ vf_sched_point(9); owner.reset(); },
                           [&]{ user(tab, l1, r1, 3); },
                           [&]{ user(tab, l2, r2, 3); LesseePtr<Obj> l3(std::move(l2)); user(tab, l3, r1, 1); }});
                }
                all_destroyed(tab, "destroy");
            });
    vf::explore("lock-vs-replace", o, [](vf::Exec& e)
            {
                Table tab;
                {
                    auto m = make(tab);
                    OwnerPtr<Obj> owner(m.p, m.del);
                    LesseePtr<Obj> l1 = owner.lease(), l2 = owner.lease(), fresh;
                    vf::Rng r1(e.rng.next()), r2(e.rng.next());
                    e.par({[&]
                           {
                               for (int i = 0; i < 3; ++i)
                               {
                                   auto n = make(tab);
                                   owner.reset(n.p, n.del);
                                   VF_CHECK(tab.e[n.id - 1].deleted == 1, "replace-kept-old", "reset(new) returned with the old object alive");
                                   VF_CHECK(owner.get() == n.p && owner->id == n.id && (*owner).ok(), "owner-wrong-object", "");
                                   LesseePtr<Obj> l = owner.lease();
                                   VF_CHECK(l && l->id == n.id, "new-lease-wrong-object", "");
                               }
                           },
                           [&]{ user(tab, l1, r1, 5); },
                           [&]{ user(tab, l2, r2, 5); }});
                    VF_CHECK(!l1 && !l2, "lease-valid-after-replace", "");
                }
                all_destroyed(tab, "replace");
            });
    vf::explore("move-assign-owner", o, [](vf::Exec& e)
            {
                Table tab;
                {
                    auto a = make(tab), b = make(tab);
                    OwnerPtr<Obj> oa(a.p, a.del), ob(b.p, b.del);
                    LesseePtr<Obj> la = oa.lease(), lb = ob.lease();
                    vf::Rng r1(e.rng.next()), r2(e.rng.next());
                    e.par({[&]
                           {
                               oa = std::move(ob);
                               VF_CHECK(tab.e[0].deleted == 1, "move-assign-kept-old", "the object of the target was not destroyed");
                               VF_CHECK(tab.e[1].deleted == 0, "move-assign-destroyed-source", "the moved object was destroyed");
                               VF_CHECK(oa && oa.get() == b.p && !ob, "move-assign-wrong-object", "");
                               OwnerPtr<Obj> oc(std::move(oa));
                               VF_CHECK(oc.get() == b.p && !oa, "move-construct-wrong-object", "");
                               VF_CHECK(tab.e[1].deleted == 0, "move-construct-destroyed", "");
                               VF_CHECK((bool)lb.lock(), "move-lost-lease", "a lease over a moved object is not valid");
                           },
                           [&]{ user(tab, la, r1, 4); },
                           [&]{ user(tab, lb, r2, 4); }});
                }
                all_destroyed(tab, "move-assign");
            });
    // Guards change hands while the owner waits
    vf::explore("guard-moves", o, [](vf::Exec& e)
            {
                Table tab;
                {
                    auto a = make(tab), b = make(tab);
                    OwnerPtr<Obj> oa(a.p, a.del), ob(b.p, b.del);
                    LesseePtr<Obj> la = oa.lease(), lb = ob.lease();
                    vf::Rng r1(e.rng.next());
                    e.par({[&]{ oa.reset(); VF_CHECK(tab.e[0].deleted == 1, "reset-returned-before-delete", ""); },
                           [&]{ ob.reset(); VF_CHECK(tab.e[1].deleted == 1, "reset-returned-before-delete", ""); },
                           [&]
                           {
                               for (int i = 0; i < 3; ++i)
                               {
                                   auto ga = la.lock(), gb = lb.lock();
                                   int ia = ga ? 0 : -1, ib = gb ? 1 : -1;
                                   if (ia >= 0) tab.e[0].holders.fetch_add(1, std::memory_order_relaxed);
                                   if (ib >= 0) tab.e[1].holders.fetch_add(1, std::memory_order_relaxed);
                                   GuardedPtr<Obj> moved(std::move(ga));
                                   VF_CHECK(!ga, "moved-guard-still-valid", "");
                                   if (ia >= 0) { VF_CHECK(moved && moved->id == 0 && moved->ok(), "moved-guard-lost", ""); }
                                   vf_sched_point(6);
                                   if (r1.chance(70))
                                   {
                                       // the hold over a is given up by the assignment
                                       if (ia >= 0) { tab.e[0].holders.fetch_sub(1, std::memory_order_relaxed); ia = -1; }
                                       moved = std::move(gb);
                                       if (ib >= 0) { VF_CHECK(moved && moved->id == 1 && moved->ok(), "assigned-guard-lost", ""); }
                                       VF_CHECK(!gb, "moved-guard-still-valid", "after an assignment");
                                       vf_sched_point(7);
                                   }
                                   if (ia >= 0) tab.e[0].holders.fetch_sub(1, std::memory_order_relaxed);
                                   if (ib >= 0) tab.e[1].holders.fetch_sub(1, std::memory_order_relaxed);
                               }
                           }});
                }
                all_destroyed(tab, "guard-moves");
            });
    // One guard replaces another over the same object; the owner is not blocked by the one that was moved from
    vf::explore("guard-replaces-same", o.r(40), [](vf::Exec& e)
            {
                Table tab;
                {
                    auto a = make(tab);
                    OwnerPtr<Obj> owner(a.p, a.del);
                    LesseePtr<Obj> l = owner.lease(), l2 = l;
                    bool copy = e.rng.chance(50);
                    std::atomic<bool> gone{false};
                    e.par({[&]{ owner.reset(); gone = true; VF_CHECK(tab.e[0].deleted == 1, "reset-returned-before-delete", ""); },
                           [&]
                           {
                               GuardedPtr<Obj> from = copy ? l2.lock() : l.lock();
                               {
                                   GuardedPtr<Obj> to = l.lock();
                                   // (a lock may fail between, when the owner is already waiting)
                                   if (!from) { to = std::move(from); VF_CHECK(!to, "assigned-guard-lost", "an empty guard assigned"); return; }
                                   to = std::move(from);
                                   VF_CHECK(!from, "moved-guard-still-valid", "after an assignment");
                                   VF_CHECK(to && to->ok(), "assigned-guard-lost", "");
                                   tab.e[0].holders.fetch_add(1, std::memory_order_relaxed);
                                   vf_sched_point(9);
                                   VF_CHECK(to && to->ok(), "guard-bad-object", "");
                                   tab.e[0].holders.fetch_sub(1, std::memory_order_relaxed);
                               }
                               // the moved one still exists; the owner does not need its end
                               VF_CHECK(vf::eventually([&]{ return gone.load(); }, 8000), "slow-blocked-by-moved", "the owner is blocked by a guard that was moved from");
                           }});
                }
                all_destroyed(tab, "guard-replaces-same");
            });
    // Owner of many guards from several threads, at once (the last release wakes the owner)
    vf::explore("many-guards", o.r(60), [](vf::Exec& e)
            {
                Table tab;
                {
                    auto a = make(tab);
                    OwnerPtr<Obj> owner(a.p, a.del);
                    LesseePtr<Obj> l = owner.lease();
                    std::atomic<int> locked{0};
                    auto holder = [&]
                            {
                                Hold h1(tab, l.lock());
                                Hold h2(tab, l.lock());
                                locked.fetch_add(1);
                                vf_sched_point(8);
                                h1.check();
                            };
                    e.par({holder, holder, holder, [&]{ while (locked.load() < 1) std::this_thread::yield(); owner.reset(); }});
                }
                all_destroyed(tab, "many-guards");
            });
    // A guard is released by another thread than the one that took it
    vf::explore("guard-to-other-thread", o.r(40), [](vf::Exec& e)
            {
                Table tab;
                {
                    auto a = make(tab);
                    OwnerPtr<Obj> owner(a.p, a.del);
                    LesseePtr<Obj> l = owner.lease();
                    std::unique_ptr<Hold> h(new Hold(tab, l.lock()));
                    e.par({[&]{ owner.reset(); VF_CHECK(tab.e[0].deleted == 1, "reset-returned-before-delete", ""); },
                           [&]{ vf_sched_point(10); h->check(); h.reset(); }});
                }
                all_destroyed(tab, "guard-to-other-thread");
            });
}

// --- sequences against a model; operations that must wait are run in a thread of their own

void sequences()
{
    vf::batches("sequence", vf::S().tool == "tsan" ? 160 : 400, [](vf::Rng& r)
            {
                Table tab;
                std::string trace;
                {
                    struct MO { std::unique_ptr<OwnerPtr<Obj>> p; int id = -1; };
                    struct ML { LesseePtr<Obj> p; int id = -1; };
                    struct MG { std::unique_ptr<GuardedPtr<Obj>> p; int id = -1; };
                    std::vector<MO> owners(3);
                    std::vector<ML> leases(5);
                    std::vector<MG> guards;
                    for (auto& x : owners) x.p.reset(new OwnerPtr<Obj>());
                    auto held = [&](int id)
                            {
                                int n = 0;
                                for (auto& g : guards) n += g.id == id;
                                return n;
                            };
                    // Runs an operation that destroys object id: it must wait for exactly the guards that exist
                    auto destroying = [&](int id, std::function<void()> op)
                            {
                                if (id < 0)
                                {
                                    op();
                                    return;
                                }
                                if (held(id) == 0)
                                {
                                    op();
                                }
                                else
                                {
                                    std::atomic<bool> done{false};
                                    std::thread th([&]{ op(); done = true; });
                                    vf::sleep_us(r.below(600));
                                    for (size_t i = 0; i < guards.size();)
                                    {
                                        if (guards[i].id == id)
                                        {
                                            VF_CHECK(!done, "owner-did-not-wait", "owner operation finished while a guard exists: " << trace);
                                            VF_CHECK(tab.e[id].deleted == 0 && (*guards[i].p)->ok(), "guard-over-deleted", trace);
                                            guards.erase(guards.begin() + i);
                                        }
                                        else ++i;
                                    }
                                    th.join();
                                    vf::count("owner_waited");
                                }
                                VF_CHECK(tab.e[id].deleted == 1, "not-deleted-by-owner-op", trace);
                                for (auto& l : leases)
                                {
                                    if (l.id == id) l.id = -2 - id;
                                }
                            };
                    for (int step = 0; step < 60; ++step)
                    {
                        int k = (int)r.below(16);
                        size_t i = r.below(owners.size()), j = r.below(owners.size());
                        size_t a = r.below(leases.size()), b = r.below(leases.size());
                        trace += " " + std::to_string(k) + "." + std::to_string(i) + std::to_string(j) + std::to_string(a) + std::to_string(b);
                        switch (k)
                        {
                            case 0:
                            case 1:
                            {
                                auto m = make(tab);
                                destroying(owners[i].id, [&]{ owners[i].p->reset(m.p, m.del); });
                                owners[i].id = m.id;
                                break;
                            }
                            case 2:
                                destroying(owners[i].id, [&]{ owners[i].p->reset(); });
                                owners[i].id = -1;
                                break;
                            case 3:
                                if (i != j)
                                {
                                    destroying(owners[i].id, [&]{ *owners[i].p = std::move(*owners[j].p); });
                                    owners[i].id = owners[j].id;
                                    owners[j].id = -1;
                                }
                                break;
                            case 4:
                            {
                                std::unique_ptr<OwnerPtr<Obj>> n(new OwnerPtr<Obj>(std::move(*owners[i].p)));
                                owners[i].p = std::move(n);
                                break;
                            }
                            case 5:
                                destroying(owners[i].id, [&]{ owners[i].p.reset(new OwnerPtr<Obj>()); });
                                owners[i].id = -1;
                                break;
                            case 6:
                            {
                                // a null reference is refused, and the old object is gone
                                bool thrown = false;
                                destroying(owners[i].id, [&]
                                        {
                                            try { owners[i].p->reset(nullptr); } catch (const InitializationException&) { thrown = true; }
                                        });
                                owners[i].id = -1;
                                VF_CHECK(thrown, "null-accepted", "reset(nullptr) did not throw");
                                break;
                            }
                            case 7:
                            case 8:
                                leases[a].p = owners[i].p->lease();
                                leases[a].id = owners[i].id;
                                break;
                            case 9:
                                leases[a].p = leases[b].p;
                                leases[a].id = leases[b].id;
                                break;
                            case 10:
                                if (a != b)
                                {
                                    leases[a].p = std::move(leases[b].p);
                                    leases[a].id = leases[b].id;
                                    leases[b].id = -1;
                                }
                                break;
                            case 11:
                            case 12:
                                if (guards.size() < 8)
                                {
                                    GuardedPtr<Obj> g = leases[a].p.lock();
                                    VF_CHECK((bool)g == (leases[a].id >= 0), "lock-wrong", "lock() valid=" << (bool)g << " model " << leases[a].id << ":" << trace);
                                    if (g) VF_CHECK(g->id == leases[a].id, "lock-other-object", trace);
                                    VF_CHECK((g == nullptr) == !g && (nullptr == g) == !g, "guard-null-comparison", trace);
                                    MG m;
                                    m.id = g ? g->id : -1;
                                    m.p.reset(new GuardedPtr<Obj>(std::move(g)));
                                    guards.push_back(std::move(m));
                                }
                                break;
                            case 13:
                                if (!guards.empty()) guards.erase(guards.begin() + r.below(guards.size()));
                                break;
                            case 14:
                                if (guards.size() >= 2)
                                {
                                    size_t x = r.below(guards.size()), y = r.below(guards.size());
                                    if (x != y)
                                    {
                                        *guards[x].p = std::move(*guards[y].p);
                                        guards[x].id = guards[y].id;
                                        guards[y].id = -1;
                                        VF_CHECK(!*guards[y].p, "moved-guard-still-valid", trace);
                                    }
                                }
                                break;
                            case 15:
                                try
                                {
                                    if (r.chance(50))
                                    {
                                        GuardedPtr<Obj> g = leases[a].p.lock_with_exception();
                                        VF_CHECK(leases[a].id >= 0 && g && g->id == leases[a].id, "lock-wrong", trace);
                                    }
                                    else if (r.chance(50))
                                    {
                                        bool good = leases[a].p->ok();
                                        VF_CHECK(leases[a].id >= 0 && good, "arrow-wrong", trace);
                                    }
                                    else
                                    {
                                        bool good = (*leases[a].p).ok();
                                        VF_CHECK(leases[a].id >= 0 && good, "star-wrong", trace);
                                    }
                                }
                                catch (const ValueAccessException&)
                                {
                                    VF_CHECK(leases[a].id < 0, "spurious-exception", trace);
                                }
                                break;
                        }
                        for (auto& x : owners)
                        {
                            VF_CHECK((bool)*x.p == (x.id >= 0), "owner-validity", "owner valid=" << (bool)*x.p << " model " << x.id << ":" << trace);
                            if (x.id >= 0) VF_CHECK((*x.p)->id == x.id && x.p->get() == tab.e[x.id].ptr.load() && tab.e[x.id].deleted == 0, "owner-object", trace);
                        }
                        for (auto& l : leases) VF_CHECK((bool)l.p == (l.id >= 0), "lease-validity", "lease valid=" << (bool)l.p << " model " << l.id << ":" << trace);
                        for (auto& g : guards)
                        {
                            VF_CHECK((bool)*g.p == (g.id >= 0), "guard-validity", trace);
                            if (g.id >= 0) VF_CHECK((*g.p)->id == g.id && (*g.p)->ok() && tab.e[g.id].deleted == 0, "guard-bad-object", trace);
                        }
                        // owned objects are not destroyed by anything else
                        for (auto& x : owners) if (x.id >= 0) VF_CHECK(tab.e[x.id].destroyed == 0, "destroyed-early", trace);
                        vf::count("steps");
                    }
                    guards.clear();
                }
                all_destroyed(tab, "sequence");
                vf::seen("sequences", vf::hash_str(trace));
                vf::sample("operations" + trace, 2);
            });
}

// Known: the reference that operator* of a lease gives is not protected after the operator returns
void star_probe()
{
    vf::batches("star-probe", 1, [](vf::Rng&)
            {
                Table tab;
                auto m = make(tab);
                OwnerPtr<Obj> owner(m.p, m.del);
                LesseePtr<Obj> l = owner.lease();
                std::atomic<int> phase{0};
                std::thread th([&]{ while (phase < 1) std::this_thread::yield(); owner.reset(); phase = 2; });
                bool destroyed_in_use = false;
                auto use = [&](Obj&)
                        {
                            phase = 1;
                            destroyed_in_use = vf::eventually([&]{ return tab.e[0].destroyed.load() != 0; }, 500);
                        };
                use(*l);
                th.join();
                if (destroyed_in_use) vf::viol("known-star-unprotected", "object destroyed while used through operator* of a LesseePtr in one expression");
            });
}

// Objects that use, while they are destroyed, the leases and the owner they come from: they are not there any more
struct Own
{
    struct Seen { int destroyed = 0; bool locked = false, thrown = false, arrow = false, valid = false; };
    LesseePtr<Own> self;
    OwnerPtr<Own>* owner = nullptr;
    Seen& seen;
    int uses;
    Own(Seen& s, int u) : seen(s), uses(u) {}
    ~Own()
    {
        ++seen.destroyed;
        if (uses & 1)
        {
            auto g = self.lock();
            seen.locked = bool(g);
        }
        if (uses & 2)
        {
            LesseePtr<Own> copy(self);
            try { auto g = copy.lock_with_exception(); }
            catch (const ValueAccessException&) { seen.thrown = true; }
            try { (void)copy->uses; seen.arrow = true; }
            catch (const ValueAccessException&) {}
            seen.valid = bool(copy);
        }
        if (uses & 4 && owner) owner->reset();
    }
};
void reentrant()
{
    vf::batches("reentrant", 32, [](vf::Rng& r)
            {
                Own::Seen seen;
                const int uses = (int)r.below(8), how = (int)r.below(4);
                LesseePtr<Own> l;
                {
                    auto o = std::make_unique<OwnerPtr<Own>>(new Own(seen, uses));
                    l = o->lease();
                    { auto g = l.lock(); g->self = l; if (how != 3) g->owner = o.get(); }
                    std::atomic<bool> held{false};
                    std::thread t([&] { auto g = l.lock(); held = true; vf::sleep_us(r.below(2000)); });
                    while (!held) std::this_thread::yield();
                    switch (how)
                    {
                        case 0: o->reset(); break;
                        case 1: *o = OwnerPtr<Own>(); break;
                        case 2: o.reset(); break;
                        default: { OwnerPtr<Own> n(std::move(*o)); n.reset(); }
                    }
                    t.join();
                    VF_CHECK(seen.destroyed == 1, "destroyed", "destroyed " << seen.destroyed << " times, way " << how);
                }
                VF_CHECK(!bool(l) && !bool(l.lock()), "valid-again", "a lease of a destroyed object");
                VF_CHECK(!seen.locked && !seen.valid && !seen.arrow && seen.thrown == ((uses & 2) != 0), "dangling-guard", "an object that was being destroyed could be locked through its lease");
                vf::seen("sequences", vf::mix((uint64_t)(uses * 4 + how)));
                vf::count("steps", 5);
            });
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    sequences();
    concurrent();
    reentrant();
    if (vf::S().tool == "asan") star_probe();
    return vf::finish();
}
