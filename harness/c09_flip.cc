// C09: flipping the diagonal of two adjacent triangles.
#include "mc.h"
#include <mito/topology.h>
using namespace mito::topology;

using Tri = std::array<int, 3>;
// a directed triangle up to rotation
static Tri canon(Tri t)
{
    int m = std::min_element(t.begin(), t.end()) - t.begin();
    return { t[m], t[(m + 1) % 3], t[(m + 2) % 3] };
}
static std::string str(const Tri & t) { return mc::fmt("(%d %d %d)", t[0], t[1], t[2]); }

struct Patch {
    std::vector<vertex_t> V;
    int index(const vertex_t & v) const
    {
        for (size_t i = 0; i < V.size(); ++i)
            if (V[i] == v) return i;
        mc::fail("foreign-vertex", "a triangle has a vertex from elsewhere");
    }
    Tri name(const simplex_t<2> & t) const
    {
        mc::require(!t.is_nullptr(), "null", "a null triangle");
        mc::require(t->sanityCheck(), "sanity", "a triangle fails its sanity check");
        auto v = t->vertices();
        Tri n = canon({ index(v[0]), index(v[1]), index(v[2]) });
        // the boundary tells the same story as the vertices
        std::multiset<std::pair<int, int>> got, want;
        for (auto & e : t->composition()) {
            int a = index(tail(e)), b = index(head(e));
            if (t->orientation() < 0) std::swap(a, b);
            got.insert({ a, b });
        }
        for (int i = 0; i < 3; ++i) want.insert({ n[i], n[(i + 1) % 3] });
        mc::require(got == want, "boundary", "the edges of triangle %s are not those of its vertices",
                    str(n).c_str());
        return n;
    }
};

// two adjacent triangles (x y p) and (y x q), made in every way
static void pairs()
{
    int perm[4] = { 0, 1, 2, 3 };
    do {
        for (int how0 = 0; how0 < 6; ++how0)
            for (int how1 = 0; how1 < 6; ++how1)
                for (int pre = 0; pre < 4; ++pre)
                    for (int variant = 0; variant < 4; ++variant)
                        mc::for_case(mc::fmt("pair %d%d%d%d made %d,%d diagonal %d order %d then %s", perm[0],
                                             perm[1], perm[2], perm[3], how0, how1, pre, variant % 2,
                                             variant < 2 ? "flip back" : "erase"), [&] {
                            int order = variant % 2;
                            Patch w;
                            for (int i = 0; i < 4; ++i) w.V.push_back(topology().vertex());
                            int x = perm[0], y = perm[1], p = perm[2], q = perm[3];
                            std::vector<simplex_t<2>> base;
                            auto make = [&](Tri t, int how) {
                                int r = how % 3;
                                Tri u { t[r], t[(r + 1) % 3], t[(r + 2) % 3] };
                                if (how < 3) return topology().triangle({ w.V[u[0]], w.V[u[1]], w.V[u[2]] });
                                auto f = topology().triangle({ w.V[u[1]], w.V[u[0]], w.V[u[2]] });
                                base.push_back(f);
                                return topology().flip(f);
                            };
                            // the new diagonal may be there already
                            std::vector<simplex_t<1>> d;
                            if (pre & 1) d.push_back(topology().segment({ w.V[p], w.V[q] }));
                            if (pre & 2) d.push_back(topology().segment({ w.V[q], w.V[p] }));
                            auto t0 = make({ x, y, p }, how0), t1 = make({ y, x, q }, how1);
                            mc::require(w.name(t0) == canon({ x, y, p }) && w.name(t1) == canon({ y, x, q }),
                                        "setup", "the triangles are not as requested");
                            mc::transition();
                            auto r = order ? flip_diagonal({ t1, t0 }) : flip_diagonal({ t0, t1 });
                            std::set<Tri> got { w.name(r.first), w.name(r.second) };
                            std::set<Tri> want { canon({ p, x, q }), canon({ q, y, p }) };
                            mc::require(got == want, "flip", "flipping %s %s gives %s %s", str({ x, y, p }).c_str(),
                                        str({ y, x, q }).c_str(), str(*got.begin()).c_str(),
                                        str(*got.rbegin()).c_str());
                            // the originals are as they were
                            mc::require(w.name(t0) == canon({ x, y, p }) && w.name(t1) == canon({ y, x, q }),
                                        "originals", "flipping changed the original triangles");
                            mc::require(topology().exists({ w.V[p], w.V[q] }) && topology().exists({ w.V[q], w.V[p] }),
                                        "diagonal", "the new diagonal does not exist in both directions");
                            mc::state(mc::hash_str(mc::current));
                            mc::trace();
                            if (variant < 2) {
                                // flipping twice goes back to the original pair
                                mc::transition();
                                auto b = flip_diagonal(r);
                                std::set<Tri> back { w.name(b.first), w.name(b.second) };
                                std::set<Tri> orig { canon({ x, y, p }), canon({ y, x, q }) };
                                mc::require(back == orig, "involution", "flipping twice does not restore the pair");
                                mc::require((b.first == t0 && b.second == t1) || (b.first == t1 && b.second == t0),
                                            "identity", "flipping twice gives other triangles than the original ones");
                                return;
                            }
                            // erasing the originals takes the old diagonal away, and leaves the new triangles
                            topology().erase(t0);
                            topology().erase(t1);
                            for (auto & f : base) topology().erase(f);
                            bool e = topology().exists({ w.V[x], w.V[y] }) || topology().exists({ w.V[y], w.V[x] });
                            mc::require(!e, "old-diagonal", "the old diagonal is still there after erasing the original triangles");
                            std::set<Tri> still { w.name(r.first), w.name(r.second) };
                            mc::require(still == want, "survivors", "the new triangles are damaged");
                        });
    } while (std::next_permutation(perm, perm + 4));
}

// a triangulated polygon, and all sequences of flips of its diagonals
struct Polygon : Patch {
    int n, ways;
    std::map<Tri, simplex_t<2>> T;
    struct Op { Tri a, b; int way; };
    std::vector<Op> menu;
    Polygon(int n, int shift, int ways) : n(n), ways(ways)
    {
        V.resize(n);
        for (int i = 0; i < n; ++i) V[(i * shift) % n] = topology().vertex();
        for (int i = 1; i + 1 < n; ++i) T[canon({ 0, i, i + 1 })] = topology().triangle({ V[0], V[i], V[i + 1] });
    }
    static bool shared(const Tri & a, const Tri & b, int & x, int & y, int & p, int & q)
    {
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                if (a[i] == b[(j + 1) % 3] && a[(i + 1) % 3] == b[j]) {
                    x = a[i], y = a[(i + 1) % 3], p = a[(i + 2) % 3], q = b[(j + 2) % 3];
                    return true;
                }
        return false;
    }
    int enabled()
    {
        menu.clear();
        int x, y, p, q;
        for (auto & [a, s] : T)
            for (auto & [b, t] : T)
                if (a != b && shared(a, b, x, y, p, q))
                    for (int w = 0; w < ways; ++w) menu.push_back({ a, b, w });
        return menu.size();
    }
    std::string name(int c)
    {
        if (menu.empty()) enabled();
        return "flip " + str(menu[c].a) + str(menu[c].b) + (menu[c].way ? " through reversed triangles" : "");
    }
    using Patch::name;
    void apply(int c)
    {
        auto o = menu[c];
        int x, y, p, q;
        shared(o.a, o.b, x, y, p, q);
        auto ta = T.at(o.a), tb = T.at(o.b);
        Tri wa = canon({ p, x, q }), wb = canon({ q, y, p });
        std::pair<simplex_t<2>, simplex_t<2>> r;
        if (o.way == 0) {
            r = flip_diagonal({ ta, tb });
        } else {
            // flip the reversed triangles, and reverse the outcome
            auto fa = topology().flip(ta), fb = topology().flip(tb);
            auto f = flip_diagonal({ fa, fb });
            r = { topology().flip(f.first), topology().flip(f.second) };
            topology().erase(fa);
            topology().erase(fb);
            topology().erase(f.first);
            topology().erase(f.second);
        }
        Tri n0 = name(r.first), n1 = name(r.second);
        mc::require((n0 == wa && n1 == wb) || (n0 == wb && n1 == wa), "flip", "flipping %s %s gives %s %s",
                    str(o.a).c_str(), str(o.b).c_str(), str(n0).c_str(), str(n1).c_str());
        T.erase(o.a);
        T.erase(o.b);
        topology().erase(ta);
        topology().erase(tb);
        mc::require(!topology().exists({ V[x], V[y] }) && !topology().exists({ V[y], V[x] }), "old-diagonal",
                    "the old diagonal is still there");
        T[n0] = r.first;
        T[n1] = r.second;
    }
    void check()
    {
        menu.clear();
        mc::require((int) T.size() == n - 2, "count", "%zu triangles", T.size());
        std::map<std::pair<int, int>, int> net;
        for (auto & [k, t] : T) {
            Tri m = name(t);
            mc::require(m == k, "drift", "triangle %s became %s", str(k).c_str(), str(m).c_str());
            for (int i = 0; i < 3; ++i) ++net[{ m[i], m[(i + 1) % 3] }];
        }
        for (int i = 0; i < n; ++i)
            mc::require(net[std::make_pair(i, (i + 1) % n)] == 1, "outline", "the outline lost an edge");
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                if (i != j) {
                    bool want = net.count({ i, j }) && net[std::make_pair(i, j)] > 0;
                    bool rev = net.count({ j, i }) && net[std::make_pair(j, i)] > 0;
                    bool got = topology().exists({ V[i], V[j] });
                    // (an edge may exist in one direction, or in both)
                    if (want)
                        mc::require(got || topology().exists({ V[j], V[i] }), "missing-edge",
                                    "edge %d %d does not exist", i, j);
                    if (!want && !rev) mc::require(!got, "ghost-edge", "edge %d %d still exists", i, j);
                }
    }
    void finish() {}
    uint64_t hash()
    {
        uint64_t h = n;
        for (auto & [k, t] : T)
            for (int i : k) h = mc::mix(h, i + (t->orientation() > 0 ? 10 : 20));
        return h;
    }
};

int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C09");
    pairs();
    struct C { int n, shift, ways, quick, deep; };
    for (auto c : { C { 4, 1, 2, 5, 7 }, C { 5, 1, 2, 4, 5 }, C { 5, 2, 2, 4, 5 }, C { 6, 1, 1, 5, 6 }, C { 6, 5, 2, 3, 4 },
                    C { 7, 3, 1, 4, 5 } }) {
        auto label = mc::fmt("polygon n=%d shift=%d ways=%d", c.n, c.shift, c.ways);
        mc::isolated(label, [&] {
            mc::explore(label, mc::pick(c.quick, c.deep), [=] { return Polygon(c.n, c.shift, c.ways); });
        });
    }
    return mc::finish();
}
