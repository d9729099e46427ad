// C02: growable segmented storage of plain resources. All histories of insertions, erasures (of
// live and of already erased elements), moves of the container and re-reads, on the real segmented
// vector, against a list of slots.
#include "mc.h"
#include <sys/resource.h>
#include <mito/utilities.h>
#include <memory>

// every constructed and not yet destroyed element, by address
static std::map<const void *, int> constructed;
static long n_built = 0, n_destroyed = 0;

struct Elem : public mito::utilities::Invalidatable {
    std::vector<int> body;    // heap memory, so that a second destruction is caught
    Elem(int v, int w) : body { v, w } { born(v); }
    Elem(const Elem & e) : Invalidatable(e), body(e.body) { born(body[0]); }
    void born(int v)
    {
        ++n_built;
        if (!constructed.emplace(this, v).second)
            mc::fail("overwrite", mc::fmt("element %d was constructed on top of a live object", v));
    }
    ~Elem()
    {
        ++n_destroyed;
        if (!constructed.erase(this)) {
            mc::write_violation("violation", "double-destroy",
                                "an element was destroyed twice (or never built); " + mc::what);
            mc::write_summary(false);
            _exit(1);
        }
    }
    int value() const { return body.at(0); }
};

struct Big : public Elem {    // a size that is not a power of two
    char pad[13] = {};
    using Elem::Elem;
};

template <class E>
struct Vec {
    using vec_t = mito::utilities::segmented_vector_t<E>;
    struct Slot { E * where; int value; bool live; };
    int seg, maxlive;
    std::unique_ptr<vec_t> v;
    std::vector<Slot> slots;    // the model, in order of position
    int next = 0, lastcap = 0;
    struct Op { char k; int a; };
    std::vector<Op> ops;

    Vec(int seg, int maxlive) : seg(seg), maxlive(maxlive), v(std::make_unique<vec_t>(seg))
    {
        menu();
    }
    Vec(Vec &&) = default;
    int live() const
    {
        return std::count_if(slots.begin(), slots.end(), [](auto & s) { return s.live; });
    }
    void menu()
    {
        ops.clear();
        if (live() < maxlive) ops.push_back({ 'e', 0 });
        int dead = 0;
        for (size_t i = 0; i < slots.size(); ++i)
            if (slots[i].live) ops.push_back({ 'x', (int) i });
            else if (!dead++) ops.push_back({ 'y', (int) i });    // erase an erased element again
        ops.push_back({ 'm', 0 });
    }
    int enabled() { return ops.size(); }
    std::string name(int c)
    {
        auto o = ops[c];
        return o.k == 'e' ? mc::fmt("emplace(%d)", next)
             : o.k == 'x' ? mc::fmt("erase(slot %d)", o.a)
             : o.k == 'y' ? mc::fmt("erase(erased slot %d)", o.a)
                          : std::string("move the container");
    }
    void apply(int c)
    {
        auto [k, a] = ops[c];
        if (k == 'e') {
            int spare = std::count_if(slots.begin(), slots.end(), [](auto & s) { return !s.live; });
            int cap = v->capacity();
            E & e = v->emplace(next, next + 1000);
            bool found = false;
            for (auto & s : slots)
                if (s.where == &e) {
                    mc::require(!s.live, "reuse-live", "element %d was put at the place of the "
                                "live element %d", next, s.value);
                    s.live = true;
                    s.value = next;
                    found = true;
                }
            if (spare > 0) {
                mc::require(found, "no-reuse", "an erased place was available but element %d took "
                            "fresh memory", next);
                mc::require(v->capacity() == cap, "capacity", "capacity grew from %d to %d although "
                            "an erased place was available", cap, v->capacity());
            }
            if (!found) slots.push_back({ &e, next, true });
            ++next;
        } else if (k == 'x') {
            bool r = v->erase(*slots[a].where);
            mc::require(r, "erase-result", "erasing a live element returned false");
            slots[a].live = false;
        } else if (k == 'y') {
            bool r = v->erase(*slots[a].where);
            mc::require(!r, "erase-result", "erasing an erased element returned true");
        } else {
            auto w = std::make_unique<vec_t>(std::move(*v));
            mc::require(v->size() == 0 && v->capacity() == 0, "moved-from",
                        "a moved-from container reports size %d, capacity %d", v->size(),
                        v->capacity());
            int n = 0;
            for (auto & e : *v) { (void) e; ++n; }
            mc::require(n == 0, "moved-from", "a moved-from container has %d elements", n);
            v = std::move(w);
        }
        menu();
    }
    void check()
    {
        int n = live();
        mc::require(v->size() == n, "size", "%d live elements, size() is %d", n, v->size());
        int want = ((int) slots.size() + seg - 1) / seg * seg;
        mc::require(v->capacity() == want, "capacity", "%zu places in segments of %d: capacity "
                    "should be %d, is %d", slots.size(), seg, want, v->capacity());
        // nothing moved, nothing changed
        for (size_t i = 0; i < slots.size(); ++i) {
            auto & s = slots[i];
            mc::require(constructed.count(s.where), "destroyed", "the object at place %zu is gone", i);
            mc::require(s.where->is_valid() == s.live, "validity", "place %zu: live=%d, is_valid=%d",
                        i, (int) s.live, (int) s.where->is_valid());
            mc::require(s.where->body.size() == 2 && s.where->value() == s.value, "value",
                        "place %zu should hold %d", i, s.value);
            mc::require(&(*v)[i] == s.where, "subscript", "subscript %zu is not the element at "
                        "place %zu", i, i);
            mc::require(&std::as_const(*v)[i] == s.where, "subscript", "const subscript %zu", i);
        }
        mc::require(constructed.size() == slots.size(), "count", "%zu objects exist for %zu places",
                    constructed.size(), slots.size());
        // every way of iterating visits the live elements, each once
        std::multiset<int> want_values;
        for (auto & s : slots)
            if (s.live) want_values.insert(s.value);
        auto sweep = [&](const char * how, auto && get) {
            std::multiset<int> got;
            std::vector<const E *> at;
            get(got, at);
            mc::require(got == want_values, "iteration", "iterating (%s) visits %zu elements, %zu "
                        "are live", how, got.size(), want_values.size());
            for (auto p : at) {
                bool ok = false;
                for (auto & s : slots) ok = ok || (s.live && s.where == p);
                mc::require(ok, "iteration", "iterating (%s) yields a stranger", how);
            }
        };
        size_t guard = slots.size() + 2;
        sweep("range-for", [&](auto & got, auto & at) {
            for (auto & e : *v) {
                got.insert(e.value());
                at.push_back(&e);
                if (got.size() > guard) break;
            }
        });
        sweep("prefix increment", [&](auto & got, auto & at) {
            for (auto it = v->begin(); it != v->end() && got.size() < guard; ++it) {
                got.insert(it->value());
                at.push_back(&*it);
            }
        });
        sweep("postfix increment", [&](auto & got, auto & at) {
            for (auto it = v->begin(); !(it == v->end()) && got.size() < guard;) {
                auto old = it++;
                got.insert((*old).value());
                at.push_back(&*old);
            }
        });
        sweep("std algorithms on a copy", [&](auto & got, auto & at) {
            auto b = v->begin();
            auto c = b;
            for (; c != v->end() && got.size() < guard; ++c) {
                mc::require(c == c && !(c != c), "iterator-equality", "an iterator differs from itself");
                got.insert(c->value());
                at.push_back(&*c);
            }
            mc::require(b == v->begin(), "iterator-equality", "advancing a copy advanced the original");
        });
    }
    void finish()
    {
        v.reset();
        mc::require(constructed.empty(), "leak", "%zu elements outlive their container",
                    constructed.size());
        constructed.clear();
    }
    uint64_t hash()
    {
        uint64_t h = seg;
        for (auto & s : slots) h = mc::mix(h, s.live ? 2 : 1);
        return mc::mix(h, slots.size());
    }
};

struct SmallStack {
    rlimit was;
    SmallStack()
    {
        getrlimit(RLIMIT_STACK, &was);
        rlimit now = was;
        now.rlim_cur = 1 << 20;
        setrlimit(RLIMIT_STACK, &now);
    }
    ~SmallStack() { setrlimit(RLIMIT_STACK, &was); }
};

int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C02");
    for (int seg = 1; seg <= 3; ++seg)
        mc::explore(mc::fmt("vector,segment=%d", seg), mc::pick(9, 11),
                    [seg] { constructed.clear(); return Vec<Elem>(seg, 9); });
    mc::explore("vector,segment=2,odd-sized", mc::pick(6, 8),
                [] { constructed.clear(); return Vec<Big>(2, 9); });
    mc::explore("vector,segment=100", mc::pick(5, 6),
                [] { constructed.clear(); return Vec<Elem>(100, 9); });
    for (int seg = 1; seg <= 4; ++seg)
        mc::bfs(mc::fmt("vector-merged,segment=%d", seg), 40, mc::thorough() ? 60000 : 3000,
                [seg] { constructed.clear(); return Vec<Elem>(seg, 12); });
    // fill and drain patterns across many segments: insert n, erase every subset pattern given by a
    // stride and offset, refill
    for (int seg : { 1, 2, 3, 5, 8 })
        for (int n = 1; n <= mc::pick(30, 60); ++n)
            for (int stride = 1; stride <= 4; ++stride)
                for (int off = 0; off < stride; ++off)
                    mc::for_case(mc::fmt("pattern seg=%d n=%d stride=%d off=%d", seg, n, stride, off), [&] {
                        constructed.clear();
                        {
                            Vec<Elem> s(seg, 1000);
                            auto op = [&](char k, int a) {
                                for (size_t c = 0; c < s.ops.size(); ++c)
                                    if (s.ops[c].k == k && (k == 'e' || s.ops[c].a == a)) {
                                        s.apply(c);
                                        mc::transition();
                                        return;
                                    }
                                mc::fail("harness", "no such operation");
                            };
                            for (int i = 0; i < n; ++i) op('e', 0);
                            s.check();
                            for (int i = off; i < n; i += stride) op('x', i);
                            s.check();
                            for (int i = 0; i < n / 2 + 1; ++i) op('e', 0);
                            s.check();
                            mc::state(mc::mix(s.hash(), n));
                            s.finish();
                        }
                        mc::trace();
                    });
    // (the stack is small, so that going deeper with every element shows)
    // long runs of erased elements, which iterating must step over
    for (int seg : { 4096, 50000 })
        for (int keep = 0; keep < 8; ++keep)
            mc::for_case(mc::fmt("a long gap, seg=%d, keeping %d", seg, keep), [&] {
                SmallStack small;
                constructed.clear();
                {
                    const int n = mc::pick(300000, 1000000);
                    mito::utilities::segmented_vector_t<Elem> v(seg);
                    std::vector<Elem *> all;
                    for (int i = 0; i < n; ++i) all.push_back(&v.emplace(i, i));
                    std::vector<Elem *> want;
                    for (int i = 0; i < n; ++i)
                        if ((keep & 1 && i == 0) || (keep & 2 && i == n / 3) || (keep & 4 && i == n - 1)) want.push_back(all[i]);
                        else mc::require(v.erase(*all[i]), "erase", "element %d cannot be erased", i);
                    mc::require(v.size() == (int) want.size(), "size", "%d of %zu elements", v.size(), want.size());
                    std::vector<Elem *> got;
                    for (auto it = v.begin(); it != v.end() && got.size() <= want.size(); ++it) got.push_back(&*it);
                    mc::require(got == want, "iteration", "iterating visits %zu of %zu elements, or others", got.size(), want.size());
                    mc::transition(2 * n);
                    mc::state(mc::hash_str(mc::current));
                }
                mc::trace();
            });
    // many elements, beyond what a short counter holds
    for (int seg : { 1, 7, 100, 4096 })
        for (int stride : { 1, 2, 3, 1000 })
            // (erasing looks through all segments for the element, in a build with assertions)
            for (int n : { 300, seg < 100 ? mc::pick(1500, 3000) : seg < 4096 ? 10000 : mc::pick(40000, 70000) })
                mc::for_case(mc::fmt("many, seg=%d stride=%d n=%d", seg, stride, n), [&] {
                    constructed.clear();
                    {
                        mito::utilities::segmented_vector_t<Elem> v(seg);
                        std::vector<std::pair<Elem *, int>> live;
                        auto check = [&](const char * when) {
                            mc::require(v.size() == (int) live.size(), "size", "%d of %zu elements %s", v.size(), live.size(), when);
                            mc::require(v.capacity() >= v.size() && v.capacity() < n + seg, "capacity", "room for %d with at most %d elements %s", v.capacity(), n, when);
                            std::set<const Elem *> want;
                            for (auto & [w, value] : live) {
                                want.insert(w);
                                mc::require(w->is_valid() && w->value() == value, "value", "element %d is damaged %s", value, when);
                            }
                            size_t visited = 0;
                            for (auto & e : v) {
                                mc::require(want.erase(&e), "iteration", "iterating yields a stranger %s", when);
                                if (++visited > live.size()) break;
                            }
                            mc::require(want.empty() && visited == live.size(), "iteration", "iterating visits %zu of %zu elements %s", visited, live.size(), when);
                        };
                        for (int i = 0; i < n; ++i) live.push_back({ &v.emplace(i, i), i });
                        check("when full");
                        for (int i = 0; i < n; i += 999) mc::require(v[i].value() == i, "value", "element %d is not at its place", i);
                        std::vector<std::pair<Elem *, int>> rest;
                        for (int i = 0; i < n; ++i)
                            if (i % stride == 0) mc::require(v.erase(*live[i].first), "erase", "element %d cannot be erased", i);
                            else rest.push_back(live[i]);
                        live = rest;
                        check("after erasing");
                        while ((int) live.size() < n) live.push_back({ &v.emplace(-(int) live.size(), 0), -(int) live.size() });
                        check("when full again");
                        mc::transition(2 * n);
                    }
                    mc::require(constructed.empty(), "leak", "%zu elements outlive their container", constructed.size());
                    mc::state(mc::hash_str(mc::current));
                    mc::trace();
                });
    return mc::finish();
}
