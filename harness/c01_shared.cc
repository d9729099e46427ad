// C01: shared handles. All operation sequences over a few handle slots and resources, on the real
// shared pointer types, against a table of which slot denotes which resource.
#include "mc.h"
#include <mito/utilities.h>
#include <optional>
#include <memory>
#include <sys/mman.h>

static std::set<const void *> alive;

struct Res : public mito::utilities::Shareable {
    int v;
    Res(int v) : v(v) { alive.insert(this); }
    ~Res() { alive.erase(this); }
};

// ---------------------------------------------------------------- intrusive handles
using ptr_t = mito::utilities::shared_ptr<Res>;
constexpr int DEAD = -2, NIL = -1;

struct Intrusive {
    int H, R;
    std::vector<std::unique_ptr<Res>> res;
    std::vector<std::unique_ptr<ptr_t>> h;
    std::vector<int> m;    // the model: what each slot denotes
    struct Op { char k; int a, b; };
    std::vector<Op> ops;

    Intrusive(int H, int R) : H(H), R(R), h(H), m(H, DEAD)
    {
        for (int r = 0; r < R; ++r) res.push_back(std::make_unique<Res>(10 + r));
        menu();
    }
    Intrusive(Intrusive &&) = default;

    void menu()
    {
        ops.clear();
        for (int i = 0; i < H; ++i) {
            if (m[i] == DEAD) {
                for (int r = 0; r < R; ++r) ops.push_back({ 'r', i, r });
                ops.push_back({ 'n', i, 0 });
                for (int j = 0; j < H; ++j)
                    if (m[j] != DEAD) {
                        ops.push_back({ 'c', i, j });
                        ops.push_back({ 'm', i, j });
                    }
                // dead slots are interchangeable: offer only the first one
                break;
            }
        }
        for (int i = 0; i < H; ++i)
            if (m[i] != DEAD) {
                for (int j = 0; j < H; ++j)
                    if (m[j] != DEAD) {
                        ops.push_back({ '=', i, j });
                        ops.push_back({ '<', i, j });
                    }
                ops.push_back({ 'd', i, 0 });
            }
    }
    int enabled() { return ops.size(); }
    std::string name(int c)
    {
        auto o = ops[c];
        const char * n = o.k == 'r' ? "handle from resource" : o.k == 'n' ? "null handle"
                       : o.k == 'c' ? "copy-construct" : o.k == 'm' ? "move-construct"
                       : o.k == '=' ? "copy-assign" : o.k == '<' ? "move-assign" : "destroy";
        return mc::fmt("%s(%d,%d)", n, o.a, o.b);
    }
    void apply(int c)
    {
        auto [k, a, b] = ops[c];
        switch (k) {
            case 'r': h[a] = std::make_unique<ptr_t>(res[b].get()); m[a] = b; break;
            case 'n': h[a] = std::make_unique<ptr_t>(); m[a] = NIL; break;
            case 'c': h[a] = std::make_unique<ptr_t>(*h[b]); m[a] = m[b]; break;
            case 'm': h[a] = std::make_unique<ptr_t>(std::move(*h[b])); m[a] = m[b]; m[b] = NIL; break;
            case '=': *h[a] = *h[b]; m[a] = m[b]; break;
            case '<':
                *h[a] = std::move(*h[b]);
                if (a != b) { m[a] = m[b]; m[b] = NIL; }
                else if (h[a]->is_nullptr()) m[a] = NIL;    // moving onto itself may empty the handle
                break;
            case 'd': h[a].reset(); m[a] = DEAD; break;
        }
        menu();
    }
    void check()
    {
        for (int r = 0; r < R; ++r) {
            int n = std::count(m.begin(), m.end(), r);
            mc::require(res[r]->is_valid() == (n > 0), "validity",
                        "resource %d has %d handles but reports is_valid=%d", r, n,
                        (int) res[r]->is_valid());
            for (int i = 0; i < H; ++i)
                if (m[i] == r) {
                    mc::require(h[i]->references() == n, "count",
                                "resource %d is denoted by %d handles, the count says %d", r, n,
                                h[i]->references());
                    mc::require((*h[i]).operator->() == res[r].get() && (*h[i])->v == 10 + r,
                                "denotes", "handle %d does not denote resource %d", i, r);
                    mc::require(h[i]->id() == ptr_t(res[r].get()).id(), "identity",
                                "the id of handle %d is not its resource's", i);
                }
            // a temporary handle raises the count by one, and lowers it again
            {
                ptr_t t(res[r].get());
                mc::require(t.references() == n + 1, "count",
                            "with a temporary handle resource %d should have %d references, has %d",
                            r, n + 1, t.references());
                ptr_t u(std::move(t));
                mc::require(t.is_nullptr() && u.references() == n + 1, "count",
                            "moving a temporary handle changed the count of %d", r);
            }
        }
        for (int i = 0; i < H; ++i)
            if (m[i] != DEAD) {
                mc::require(h[i]->is_nullptr() == (m[i] == NIL), "nullness",
                            "handle %d: is_nullptr=%d, denotes %d", i, (int) h[i]->is_nullptr(), m[i]);
                for (int j = 0; j < H; ++j)
                    if (m[j] != DEAD) {
                        bool eq = (*h[i] == *h[j]);
                        mc::require(eq == (m[i] == m[j]), "equality",
                                    "handles %d and %d denote %d and %d, == says %d", i, j, m[i],
                                    m[j], (int) eq);
                        bool lt = (*h[i] < *h[j]), gt = (*h[j] < *h[i]);
                        mc::require(eq ? (!lt && !gt) : (lt != gt), "order",
                                    "handles %d and %d are not totally ordered", i, j);
                    }
            }
    }
    void finish()
    {
        h.clear();
        for (int r = 0; r < R; ++r) {
            mc::require(!res[r]->is_valid(), "leak", "resource %d still counts references after "
                        "its last handle is gone", r);
            mc::require(alive.count(res[r].get()), "destroyed", "a handle destroyed resource %d", r);
        }
        res.clear();
    }
    uint64_t hash()
    {
        uint64_t x = 3;
        for (int i : m) x = mc::mix(x, i + 5);
        return x;
    }
};

// ---------------------------------------------------------------- owning handles
struct Owned {
    int v;
    Owned(int v) : v(v) { alive.insert(this); }
    Owned(const Owned &) = delete;
    ~Owned() { alive.erase(this); }
};
using own_t = mito::utilities::std_shared_ptr<Owned>;

struct Owning {
    int H;
    std::vector<std::unique_ptr<own_t>> h;
    std::vector<int> m;
    std::map<int, const Owned *> where;
    int next = 0;
    struct Op { char k; int a, b; };
    std::vector<Op> ops;
    Owning(int H) : H(H), h(H), m(H, DEAD) { menu(); }
    Owning(Owning &&) = default;
    void menu()
    {
        ops.clear();
        for (int i = 0; i < H; ++i)
            if (m[i] == DEAD) {
                ops.push_back({ 'r', i, 0 });
                for (int j = 0; j < H; ++j)
                    if (m[j] >= 0) {
                        ops.push_back({ 'c', i, j });
                        ops.push_back({ 'm', i, j });
                    }
                break;
            }
        for (int i = 0; i < H; ++i)
            if (m[i] != DEAD) {
                for (int j = 0; j < H; ++j)
                    if (m[j] >= 0) {
                        ops.push_back({ '=', i, j });
                        if (i != j) ops.push_back({ '<', i, j });
                    }
                ops.push_back({ 'd', i, 0 });
            }
    }
    int enabled() { return ops.size(); }
    std::string name(int c)
    {
        return mc::fmt("owning handle op %c(%d,%d)", ops[c].k, ops[c].a, ops[c].b);
    }
    void apply(int c)
    {
        auto [k, a, b] = ops[c];
        switch (k) {
            case 'r':
                h[a] = std::make_unique<own_t>(100 + next);
                where[next] = h[a]->operator->();
                m[a] = next++;
                break;
            case 'c': h[a] = std::make_unique<own_t>(*h[b]); m[a] = m[b]; break;
            case 'm': h[a] = std::make_unique<own_t>(std::move(*h[b])); m[a] = m[b]; m[b] = NIL; break;
            case '=': *h[a] = *h[b]; m[a] = m[b]; break;
            case '<': *h[a] = std::move(*h[b]); m[a] = m[b]; m[b] = NIL; break;
            case 'd': h[a].reset(); m[a] = DEAD; break;
        }
        menu();
    }
    void check()
    {
        std::set<int> denoted;
        for (int i : m)
            if (i >= 0) denoted.insert(i);
        mc::require(alive.size() == denoted.size(), "lifetime",
                    "%zu objects are alive, %zu are denoted by a handle", alive.size(),
                    denoted.size());
        for (int i = 0; i < H; ++i)
            if (m[i] >= 0) {
                auto p = h[i]->operator->();
                mc::require(p == where[m[i]] && alive.count(p) && p->v == 100 + m[i], "denotes",
                            "owning handle %d does not denote object %d", i, m[i]);
                for (int j = 0; j < H; ++j)
                    if (m[j] >= 0) {
                        bool eq = (*h[i] == *h[j]), lt = (*h[i] < *h[j]), gt = (*h[j] < *h[i]);
                        mc::require(eq == (m[i] == m[j]), "equality", "== of owning handles");
                        mc::require(eq ? (!lt && !gt) : (lt != gt), "order", "order of owning handles");
                    }
            }
    }
    void finish()
    {
        h.clear();
        mc::require(alive.empty(), "leak", "%zu objects outlive their last owning handle",
                    alive.size());
    }
    uint64_t hash()
    {
        std::map<int, int> canon;
        uint64_t x = 77;
        for (int i : m) {
            int c = i;
            if (i >= 0) c = canon.emplace(i, canon.size()).first->second;
            x = mc::mix(x, c + 5);
        }
        return x;
    }
};

// ---------------------------------------------------------------- many handles
// as many handles as a counter of any size may fail to hold
template <class handle_t, class Make, class Count>
static void crowd(const char * kind, long n, Make make, Count count)
{
    for (int way = 0; way < 3; ++way)
        mc::for_case(mc::fmt("%s, %ld handles, way %d", kind, n, way), [&] {
            alive.clear();
            {
                auto first = make();
                std::vector<handle_t> copies;
                copies.reserve(n);
                for (long i = 1; i < n; ++i) {
                    if (way == 0) copies.push_back(*first);
                    else if (way == 1) { handle_t h(*first); copies.push_back(std::move(h)); }
                    else copies.push_back(i > 1 ? copies[(i - 2) / 2] : *first);
                    if ((i & (i + 1)) == 0 || i == n - 1) count(*first, i + 1);
                }
                long left = n;
                while (!copies.empty()) {
                    copies.pop_back();
                    --left;
                    if ((left & (left - 1)) == 0) count(*first, left);
                }
                count(*first, 1);
            }
            mc::evaluation(n > 1, mc::hash_str(mc::current));
            mc::trace();
        });
}
static void crowds()
{
    std::set<long> sizes;
    for (long n = 1; n <= 40; ++n) sizes.insert(n);
    for (int k = 6; k <= mc::pick(17, 20); ++k)
        for (int d = -1; d <= 2; ++d) sizes.insert((1L << k) + d);
    for (long n : sizes) {
        std::unique_ptr<Res> r;
        crowd<ptr_t>("intrusive", n, [&] { r = std::make_unique<Res>(5); return std::make_unique<ptr_t>(r.get()); },
                     [&](const ptr_t & h, long want) {
                         mc::require(h.references() == want, "count", "%ld handles count %d references", want, h.references());
                         mc::require(r->is_valid() && alive.size() == 1 && h->v == 5, "lifetime", "a resource with %ld handles passes for unused", want);
                     });
        r.reset();
        crowd<own_t>("owning", n, [&] { return std::make_unique<own_t>(5); },
                     [&](const own_t & h, long want) { mc::require(alive.size() == 1 && h->v == 5, "lifetime", "the object of %ld owning handles is gone", want); });
    }
    // of many resources, handles to different ones are different, and hash differently
    mc::for_case("many resources", [&] {
        std::vector<std::unique_ptr<Res>> r;
        std::vector<ptr_t> h;
        for (int i = 0; i < 400; ++i) {
            r.push_back(std::make_unique<Res>(i));
            h.emplace_back(r.back().get());
        }
        mito::utilities::hash_function<ptr_t> hash;
        for (int i = 0; i < 400; ++i)
            for (int j = 0; j < 400; ++j) {
                ptr_t copy(h[j]);
                mc::require((h[i] == copy) == (i == j) && ((h[i] <=> copy) == 0) == (i == j) && (hash(h[i]) == hash(copy)) == (i == j), "equality", "handles to resources %d and %d compare or hash wrongly", i, j);
                mc::require((h[i] < h[j]) + (h[j] < h[i]) == (i != j), "order", "handles to resources %d and %d are not ordered", i, j);
            }
        mc::evaluation(true, mc::hash_str(mc::current));
    });
    // wherever they are: next to each other, and as far apart as an address space allows
    mc::for_case("resources near and far", [&] {
        struct Tiny : public mito::utilities::Shareable {};
        using tiny_t = mito::utilities::shared_ptr<Tiny>;
        const int n = 2000;
        std::unique_ptr<Tiny[]> near(new Tiny[n]);
        std::vector<tiny_t> h;
        for (int i = 0; i < n; ++i) h.emplace_back(&near[i]);
        std::vector<std::pair<void *, size_t>> maps;
        int spread = 0;
        for (int k = 13; k < 47; ++k)
            for (uintptr_t base : { 0x100000000000ul, 0x200000000000ul }) {
                void * p = mmap((void *) (base + (1ul << k)), 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
                if (p == MAP_FAILED) continue;
                maps.push_back({ p, 4096 });
                if (p != (void *) (base + (1ul << k))) continue;
                ++spread;
                h.emplace_back(new (p) Tiny);
                h.emplace_back(new ((char *) p + 2048) Tiny);
            }
        mc::require(spread > 20, "harness", "only %d far places could be mapped", spread);
        mito::utilities::hash_function<tiny_t> hash;
        std::map<size_t, size_t> seen;
        for (size_t i = 0; i < h.size(); ++i) {
            tiny_t copy(h[i]);
            mc::require(hash(copy) == hash(h[i]) && copy == h[i] && copy.references() == 2, "equality", "a copy of handle %zu differs, or hashes differently", i);
            auto [it, fresh] = seen.emplace(hash(h[i]), i);
            mc::require(fresh, "equality", "the handles to different resources at %p and %p hash alike", (void *) h[i].operator->(), (void *) h[it->second].operator->());
            mc::require(i == 0 || h[i] != h[i - 1], "equality", "handles to different resources are equal");
        }
        h.clear();
        const size_t many = 1200000;
        std::unique_ptr<Tiny[]> crowd(new Tiny[many]);
        std::vector<size_t> all;
        for (size_t i = 0; i < many; ++i) all.push_back(hash(tiny_t(&crowd[i])));
        std::sort(all.begin(), all.end());
        mc::require(std::unique(all.begin(), all.end()) == all.end(), "equality", "two of %zu handles to different resources hash alike", many);
        for (auto & [p, size] : maps) munmap(p, size);
        mc::evaluation(true, mc::hash_str(mc::current));
    });
}

int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C01");
    crowds();
    // every history without merging states
    mc::explore("intrusive,H=2,R=2", mc::pick(6, 7), [] { return Intrusive(2, 2); });
    mc::explore("intrusive,H=3,R=2", mc::pick(5, 6), [] { return Intrusive(3, 2); });
    mc::explore("owning,H=3", mc::pick(5, 6), [] { return Owning(3); });
    // longer histories, merging states in which the same slots denote the same resources
    mc::bfs("intrusive-merged,H=4,R=3", 12, 100000, [] { return Intrusive(4, 3); });
    mc::bfs("intrusive-merged,H=5,R=2", 14, 100000, [] { return Intrusive(5, 2); });
    mc::bfs("owning-merged,H=4", 12, 100000, [] { return Owning(4); });
    return mc::finish();
}
