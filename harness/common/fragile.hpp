// A value whose copies fail when they are told to (as those of any type that allocates can)
#pragma once
#include <vf.hpp>
#include <memory>
#include <stdexcept>
namespace vf {
struct CopyFailed : std::runtime_error { CopyFailed() : std::runtime_error("the copy failed") {} };
struct Fragile : Live<Fragile>
{
    // The copy that fails, counted from now; 0: none
    static int& fuse() { static thread_local int f = 0; return f; }
    static void burn() { if (fuse() > 0 && --fuse() == 0) throw CopyFailed(); }
    Fragile(int x = 0) : n(std::make_unique<int>(x)) {}
    Fragile(const Fragile& o) { burn(); n = std::make_unique<int>(o.get()); }
    Fragile(Fragile&& o) noexcept : n(std::move(o.n)) {}
    Fragile& operator =(const Fragile& o) { burn(); n = std::make_unique<int>(o.get()); return *this; }
    Fragile& operator =(Fragile&& o) noexcept { n = std::move(o.n); return *this; }
    bool operator <(const Fragile& o) const { return get() < o.get(); }
    bool operator ==(const Fragile& o) const { return get() == o.get(); }
    int get() const { return n ? *n : -1; }    // -1: moved from
    std::unique_ptr<int> n;
};
// The same, and moves and comparisons can fail as well; what fails changes nothing
struct Brittle : Live<Brittle>
{
    Brittle(int x = 0) : n(std::make_unique<int>(x)) {}
    Brittle(const Brittle& o) { Fragile::burn(); n = std::make_unique<int>(o.get()); }
    Brittle(Brittle&& o) { Fragile::burn(); n = std::move(o.n); }
    Brittle& operator =(const Brittle& o) { Fragile::burn(); n = std::make_unique<int>(o.get()); return *this; }
    Brittle& operator =(Brittle&& o) { Fragile::burn(); n = std::move(o.n); return *this; }
    bool operator <(const Brittle& o) const { Fragile::burn(); return get() < o.get(); }
    bool operator ==(const Brittle& o) const { return get() == o.get(); }
    int get() const { return n ? *n : -1; }
    std::unique_ptr<int> n;
};
// Runs f with the k-th copy failing; true if it failed
template <class F> bool failing(int k, F f)
{
    Fragile::fuse() = k;
    try
    {
        f();
        Fragile::fuse() = 0;
        return false;
    }
    catch (const CopyFailed&)
    {
        Fragile::fuse() = 0;
        count("failed_copies");
        return true;
    }
}
} // namespace vf
