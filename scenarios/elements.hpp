// elements for container scenarios: every construction and destruction is checked, copies may fail, moves do not
#pragma once
#include <unordered_set>
namespace elements
{
    struct copy_failed : std::exception { char const* what() const noexcept override { return "copy failed"; } };
    inline std::unordered_set<void const*>* sLive; inline bool sArmed; 
    inline void may_fail() { if (sArmed && sim::fault("copy_failure", 80)) throw copy_failed{}; }
    inline void born(void const* p) { sim::quiet q; if (!sLive->insert(p).second) sim::fail("double-construct", "an item was constructed over a living one"); }
    inline void died(void const* p) { sim::quiet q; if (!sLive->erase(p)) sim::fail("bad-destroy", "an item was destroyed that does not exist"); }
    inline void alive(void const* p) { sim::quiet q; if (!sLive->count(p)) sim::fail("dead-item", "an item that does not exist was used"); }
    struct i_item { using abstract_type = i_item; };
    struct item
    {
        int id;
        item(int id = 0) : id{ id } { born(this); }
        item(item const& o) : id{ (alive(&o), may_fail(), o.id) } { born(this); }
        item(item&& o) noexcept : id{ (alive(&o), o.id) } { born(this); o.id = -2; }
        item& operator=(item const& o) { alive(this); alive(&o); may_fail(); id = o.id; return *this; }
        item& operator=(item&& o) noexcept { alive(this); alive(&o); id = o.id; if (&o != this) o.id = -2; return *this; }
        ~item() { died(this); id = -3; }
        friend bool operator==(item const& a, item const& b) { return a.id == b.id; }
        friend auto operator<=>(item const& a, item const& b) { return a.id <=> b.id; }
    };
    inline int id_of(item const& i) { alive(&i); return i.id; }
    inline std::size_t live() { return sLive->size(); }
    struct armed { sim::alloc_faults af; armed() : af{ 60 } { sArmed = true; } ~armed() { sArmed = false; } };
    struct no_faults { bool a; sim::alloc_faults af; no_faults() : a{ sArmed }, af{ 0 } { sArmed = false; } ~no_faults() { sArmed = a; } };
    inline void enter(bool) {}
    inline void warm() { sim::quiet q; sArmed = false; sLive = new std::unordered_set<void const*>; sLive->reserve(4096); }
}
