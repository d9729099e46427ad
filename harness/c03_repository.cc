// C03: repositories of shared resources. All histories of insertion, handle copy/drop, erasure and
// lookup by id, on the real repository, against a table of resources.
#include "mc.h"
#include <sys/resource.h>
#include <mito/utilities.h>
#include <memory>

static std::map<const void *, int> constructed;
static std::map<int, int> destroyed;

struct Leaf : public mito::utilities::Shareable {
    Leaf() {}
};
using leaf_t = mito::utilities::shared_ptr<Leaf>;

// resources own heap memory and a handle to something else, like simplices do
struct Res : public mito::utilities::Shareable {
    std::vector<int> body;
    leaf_t leaf;
    Res(int v, const leaf_t & l) : body { v, -v }, leaf(l)
    {
        if (!constructed.emplace(this, v).second)
            mc::fail("overwrite", mc::fmt("resource %d was built on top of a live one", v));
    }
    ~Res() override
    {
        auto it = constructed.find(this);
        if (it == constructed.end()) {
            mc::write_violation("violation", "double-destroy",
                                "a resource was destroyed twice; " + mc::what);
            mc::write_summary(false);
            _exit(1);
        }
        ++destroyed[it->second];
        constructed.erase(it);
    }
};
using ptr_t = mito::utilities::shared_ptr<Res>;
using repo_t = mito::utilities::repository_t<ptr_t>;

struct Repo {
    struct Item {
        Res * where;
        int value;
        bool present;                       // not erased
        std::vector<std::unique_ptr<ptr_t>> handles;    // held by the client
        mito::utilities::index_t<Res> id;
    };
    int seg, maxlive;
    std::unique_ptr<Leaf> leafres;
    std::unique_ptr<leaf_t> leaf;
    std::unique_ptr<repo_t> r;
    std::vector<Item> items;    // every resource ever built
    std::vector<Res *> places;  // distinct addresses, in order of first use
    int next = 1;
    struct Op { char k; int a; };
    std::vector<Op> ops;

    Repo(int seg, int maxlive) :
        seg(seg), maxlive(maxlive), leafres(new Leaf), leaf(new leaf_t(leafres.get())),
        r(new repo_t(seg))
    {
        menu();
    }
    Repo(Repo &&) = default;
    int present() const
    {
        return std::count_if(items.begin(), items.end(), [](auto & i) { return i.present; });
    }
    void menu()
    {
        ops.clear();
        if (present() < maxlive) ops.push_back({ 'e', 0 });
        for (size_t i = 0; i < items.size(); ++i) {
            auto & it = items[i];
            if (!it.present) continue;
            if (it.handles.size() < 2) ops.push_back({ 'l', (int) i });    // look up by id
            if (it.handles.size() > 0) ops.push_back({ 'd', (int) i });    // drop a handle
            if (it.handles.size() > 0) ops.push_back({ 'x', (int) i });    // erase
        }
        ops.push_back({ '0', 0 });    // erase through a null handle
    }
    int enabled() { return ops.size(); }
    std::string name(int c)
    {
        auto o = ops[c];
        return o.k == 'e' ? mc::fmt("emplace(%d)", next)
             : o.k == 'l' ? mc::fmt("resource(id of %d)", items[o.a].value)
             : o.k == 'd' ? mc::fmt("drop a handle of %d", items[o.a].value)
             : o.k == 'x' ? mc::fmt("erase %d, held %zu times", items[o.a].value,
                                    items[o.a].handles.size())
                          : std::string("erase(null)");
    }
    void apply(int c)
    {
        auto [k, a] = ops[c];
        if (k == 'e') {
            int free = (int) places.size() - present();
            int cap = r->capacity();
            auto p = r->emplace(next, *leaf);
            Res * w = p.operator->();
            mc::require(p.references() == 1, "count", "a new resource has %d references",
                        p.references());
            for (auto & i : items)
                mc::require(!(i.present && i.where == w), "reuse-live", "resource %d was put on top "
                            "of resource %d", next, i.value);
            bool old = std::find(places.begin(), places.end(), w) != places.end();
            mc::require(free == 0 || (old && r->capacity() == cap), "no-reuse",
                        "an erased place was available but fresh memory was taken");
            if (!old) places.push_back(w);
            Item it { w, next, true, {}, p.id() };
            it.handles.push_back(std::make_unique<ptr_t>(std::move(p)));
            items.push_back(std::move(it));
            ++next;
        } else if (k == 'l') {
            auto p = repo_t::resource(items[a].id);
            items[a].handles.push_back(std::make_unique<ptr_t>(p));
        } else if (k == 'd') {
            items[a].handles.pop_back();
        } else if (k == 'x') {
            auto & it = items[a];
            bool last = it.handles.size() == 1;
            int v = it.value;
            auto h = std::move(it.handles.back());
            it.handles.pop_back();
            bool done = r->erase(*h);
            mc::require(done == last, "erase-result", "erase returned %d for a resource held by %d "
                        "other handles", (int) done, (int) it.handles.size());
            if (last) {
                mc::require(h->is_nullptr(), "erase-handle", "erase left the handle dangling");
                mc::require(destroyed[v] == 1, "erase-destroy", "the erased resource %d was "
                            "destroyed %d times", v, destroyed[v]);
                it.present = false;
            } else {
                mc::require(!h->is_nullptr(), "erase-handle", "refusing to erase nulled the handle");
                it.handles.push_back(std::move(h));
            }
        } else {
            ptr_t nil;
            mc::require(!r->erase(nil), "erase-result", "erasing a null handle returned true");
        }
        menu();
    }
    void check()
    {
        int n = present();
        mc::require(r->size() == n, "size", "%d resources are present, size() is %d", n, r->size());
        int want = ((int) places.size() + seg - 1) / seg * seg;
        mc::require(r->capacity() == want, "capacity", "capacity should be %d, is %d", want,
                    r->capacity());
        mc::require(constructed.size() == (size_t) n, "lifetime", "%zu objects exist, %d present",
                    constructed.size(), n);
        std::multiset<int> held;
        for (auto & i : items) {
            mc::require(destroyed[i.value] == (i.present ? 0 : 1), "lifetime",
                        "resource %d (present=%d) was destroyed %d times", i.value, (int) i.present,
                        destroyed[i.value]);
            if (!i.present) continue;
            mc::require(i.where->body.size() == 2 && i.where->body[0] == i.value, "value",
                        "resource %d lost its value", i.value);
            if (i.handles.size()) held.insert(i.value);
            mc::require(i.where->is_valid() == !i.handles.empty(), "validity", "resource %d", i.value);
            for (auto & h : i.handles)
                mc::require(h->references() == (int) i.handles.size() && h->operator->() == i.where
                                && h->id() == i.id,
                            "count", "resource %d is held %zu times, the count says %d", i.value,
                            i.handles.size(), h->references());
        }
        // iteration visits the resources that somebody holds, each once
        size_t guard = places.size() + 2;
        auto compare = [&](const char * how, std::multiset<int> & got) {
            mc::require(got == held, "iteration", "iterating (%s) visits %zu resources, %zu are held",
                        how, got.size(), held.size());
        };
        {
            std::multiset<int> got;
            for (auto p : *r) {
                got.insert(p->body.at(0));
                if (got.size() > guard) break;
            }
            compare("range-for", got);
        }
        {
            std::multiset<int> got;
            for (auto it = r->begin(); it != r->end() && got.size() < guard;) {
                auto old = it++;
                got.insert((*old)->body.at(0));
            }
            compare("postfix increment", got);
        }
        // (iterating handed out handles: they must all have been given back)
        for (auto & i : items)
            if (i.present && i.handles.size())
                mc::require(i.handles[0]->references() == (int) i.handles.size(), "count",
                            "iterating changed the count of resource %d", i.value);
        mc::require(leaf->references() == 1 + n, "nested", "%d resources hold the nested resource, "
                    "its count is %d", n, leaf->references());
    }
    void finish()
    {
        for (auto & i : items) i.handles.clear();
        r.reset();
        for (auto & i : items)
            mc::require(destroyed[i.value] == 1, "lifetime", "resource %d was destroyed %d times in "
                        "all", i.value, destroyed[i.value]);
        mc::require(constructed.empty(), "leak", "%zu resources outlive the repository",
                    constructed.size());
        mc::require(leaf->references() == 1, "nested", "the nested resource is counted %d times "
                    "after the repository is gone", leaf->references());
    }
    uint64_t hash()
    {
        // by place: what is there, and how many handles
        uint64_t h = seg;
        for (auto w : places) {
            int c = 0;
            for (auto & i : items)
                if (i.present && i.where == w) c = 1 + i.handles.size();
            h = mc::mix(h, c + 1);
        }
        return h;
    }
};

struct SmallStack {
    rlimit was;
    SmallStack()
    {
        getrlimit(RLIMIT_STACK, &was);
        rlimit now = was;
        now.rlim_cur = 1 << 20;
        setrlimit(RLIMIT_STACK, &now);
    }
    ~SmallStack() { setrlimit(RLIMIT_STACK, &was); }
};

int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C03");
    auto make = [](int seg, int live) {
        constructed.clear();
        destroyed.clear();
        return Repo(seg, live);
    };
    for (int seg = 1; seg <= 3; ++seg)
        mc::explore(mc::fmt("repository,segment=%d", seg), mc::pick(7, 10),
                    [=] { return make(seg, 6); });
    mc::explore("repository,segment=100", mc::pick(6, 8), [=] { return make(100, 6); });
    for (int seg = 1; seg <= 4; ++seg)
        mc::bfs(mc::fmt("repository-merged,segment=%d", seg), 30, mc::thorough() ? 60000 : 2500,
                [=] { return make(seg, 8); });
    // (the stack is small, so that going deeper with every element shows)
    // long runs of erased resources, which iterating must step over
    for (int seg : { 4096, 50000 })
        for (int keep = 0; keep < 8; ++keep)
            mc::for_case(mc::fmt("a long gap, seg=%d, keeping %d", seg, keep), [&] {
                SmallStack small;
                constructed.clear();
                destroyed.clear();
                auto resource = std::make_unique<Leaf>();
                {
                    const int n = mc::pick(200000, 1000000);
                    leaf_t leaf(resource.get());
                    repo_t r(seg);
                    std::vector<ptr_t> all;
                    for (int i = 0; i < n; ++i) all.push_back(r.emplace(i, leaf));
                    std::vector<const Res *> want, got;
                    for (int i = 0; i < n; ++i)
                        if ((keep & 1 && i == 0) || (keep & 2 && i == n / 3) || (keep & 4 && i == n - 1)) want.push_back(all[i].operator->());
                        else mc::require(r.erase(all[i]), "erase", "resource %d cannot be erased", i);
                    mc::require(r.size() == (int) want.size(), "size", "%d of %zu resources", r.size(), want.size());
                    for (const auto & e : r) {
                        got.push_back(e.operator->());
                        if (got.size() > want.size()) break;
                    }
                    mc::require(got == want, "iteration", "iterating visits %zu of %zu resources, or others", got.size(), want.size());
                    mc::require(leaf.references() == (int) want.size() + 1, "nested", "the nested resource is counted %d times", leaf.references());
                    mc::transition(2 * n);
                    mc::state(mc::hash_str(mc::current));
                }
                mc::require(constructed.empty(), "leak", "%zu resources outlive the repository", constructed.size());
                mc::trace();
            });
    // many resources, beyond what a short counter holds
    for (int seg : { 1, 7, 100, 4096 })
        for (int stride : { 1, 2, 3, 1000 })
            // (erasing looks through all segments for the element, in a build with assertions)
            for (int n : { 300, seg < 100 ? mc::pick(1500, 3000) : seg < 4096 ? 10000 : mc::pick(40000, 70000) })
                mc::for_case(mc::fmt("many, seg=%d stride=%d n=%d", seg, stride, n), [&] {
                    constructed.clear();
                    destroyed.clear();
                    auto resource = std::make_unique<Leaf>();
                    {
                        leaf_t leaf(resource.get());
                        repo_t r(seg);
                        std::vector<ptr_t> live;
                        auto check = [&](const char * when) {
                            mc::require(r.size() == (int) live.size() && constructed.size() == live.size(), "size", "%d of %zu resources %s, %zu alive", r.size(), live.size(), when, constructed.size());
                            mc::require(leaf.references() == (int) live.size() + 1, "nested", "the nested resource is counted %d times %s", leaf.references(), when);
                            mc::require(r.capacity() >= r.size() && r.capacity() < n + seg, "capacity", "room for %d with at most %d resources %s", r.capacity(), n, when);
                            std::set<const Res *> want;
                            for (auto & h : live) {
                                want.insert(h.operator->());
                                mc::require(h.references() == 1 && constructed.at(h.operator->()) == h->body[0], "value", "resource %d is damaged %s", h->body[0], when);
                                mc::require(repo_t::resource(h.id()) == h, "lookup", "the resource of an id is another %s", when);
                            }
                            size_t visited = 0;
                            for (const auto & e : r) {
                                mc::require(want.erase(e.operator->()), "iteration", "iterating yields a stranger %s", when);
                                if (++visited > live.size()) break;
                            }
                            mc::require(want.empty() && visited == live.size(), "iteration", "iterating visits %zu of %zu resources %s", visited, live.size(), when);
                        };
                        for (int i = 0; i < n; ++i) live.push_back(r.emplace(i, leaf));
                        check("when full");
                        std::vector<ptr_t> rest;
                        for (int i = 0; i < n; ++i)
                            if (i % stride == 0) {
                                // (in use twice, it stays)
                                ptr_t second(live[i]);
                                mc::require(!r.erase(live[i]) && second.references() == 2, "in-use", "resource %d was erased while in use", i);
                                second = ptr_t(live[i]);
                                { ptr_t gone(std::move(second)); }
                                mc::require(r.erase(live[i]), "erase", "resource %d cannot be erased", i);
                            } else rest.push_back(live[i]);
                        live = std::move(rest);
                        check("after erasing");
                        while ((int) live.size() < n) live.push_back(r.emplace(n + (int) live.size(), leaf));
                        check("when full again");
                        live.clear();
                        mc::transition(2 * n);
                    }
                    mc::require(constructed.empty(), "leak", "%zu resources outlive the repository", constructed.size());
                    mc::state(mc::hash_str(mc::current));
                    mc::trace();
                });
    return mc::finish();
}
