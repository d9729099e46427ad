// C04 (FOCUS 1), C05 (2), C06 (4), C07 (8): the topology, all histories of building simplices from
// vertices and from their boundary, flipping, dropping handles and erasing.
#include "topo.h"
#ifndef FOCUS
#define FOCUS 1
#endif
#if FOCUS == 1
// the boundary listed in an odd order denotes the opposite simplex, whichever is registered first
static void odd_orders()
{
    using namespace mito::topology;
    int p[3] = { 0, 1, 2 };
    do {
        if (topo::parity({ p[0], p[1], p[2] }) > 0) continue;
        for (int first = 0; first < 2; ++first)
            mc::for_case(mc::fmt("odd boundary order %d%d%d, %s first", p[0], p[1], p[2], first ? "vertices" : "boundary"), [&] {
                mc::transition(2);
                mc::trace();
                int r = mc::probe([&] {
                    auto & t = topology();
                    vertex_t v[3] = { t.vertex(), t.vertex(), t.vertex() };
                    simplex_t<1> e[3] = { t.segment({ v[0], v[1] }), t.segment({ v[1], v[2] }), t.segment({ v[2], v[0] }) };
                    simplex_t<2> a, b;
                    if (first) b = t.triangle({ v[0], v[1], v[2] });
                    a = t.triangle({ e[p[0]], e[p[1]], e[p[2]] });
                    if (!first) b = t.triangle({ v[0], v[1], v[2] });
                    return a == t.flip(b) && a->footprint() == b->footprint()
                        && mito::math::permutation_sign(b->vertices(), { v[0], v[1], v[2] }) == 1;
                });
                mc::require(r == 0, first ? "odd-order" : "odd-boundary-order", "building a triangle from its boundary in odd order, and from its vertices: %s",
                            r == 1 ? "not opposite" : "the program died");
            });
    } while (std::next_permutation(p, p + 3));
}
#endif

// ---------------------------------------------------------------- crowds
// every simplex on a set of vertices at once: far more of them than a segment of the storage holds,
// or than a short key tells apart
namespace crowds {
    using namespace mito::topology;
    template <int N>
    using Corners = std::array<int, N + 1>;

    template <int N>
    static std::vector<Corners<N>> all(int nv)
    {
        std::vector<Corners<N>> r;
        Corners<N> c;
        std::function<void(int, int)> go = [&](int k, int from) {
            if (k == N + 1) {
                r.push_back(c);
                return;
            }
            for (int i = from; i < nv; ++i) {
                c[k] = i;
                go(k + 1, i + 1);
            }
        };
        go(0, 0);
        return r;
    }

    template <int N>
    static simplex_t<N> build(const std::vector<vertex_t> & v, const Corners<N> & c)
    {
        vertex_simplex_composition_t<N> w;
        for (int i = 0; i <= N; ++i) w[i] = v[c[i]];
        if constexpr (N == 1) return topology().segment(w);
        if constexpr (N == 2) return topology().triangle(w);
        if constexpr (N == 3) return topology().tetrahedron(w);
    }

    template <size_t n>
    static int sign(const std::array<int, n> & p)
    {
        int s = 1;
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < i; ++j)
                if (p[j] > p[i]) s = -s;
        return s;
    }

    template <int N>
    static std::string text(const Corners<N> & c)
    {
        std::string r;
        for (int i : c) r += (r.empty() ? "" : " ") + std::to_string(i);
        return r;
    }

    // all simplices on {nv} vertices, in both orientations, every {stride}-th first
    template <int N>
    static void complete(int nv, int stride)
    {
        mc::fork_case(mc::fmt("all %d-simplices on %d vertices, by strides of %d", N, nv, stride), [&] {
            std::vector<vertex_t> v;
            for (int i = 0; i < nv; ++i) v.push_back(topology().vertex());
            auto cs = all<N>(nv);
            size_t n = cs.size();
            std::vector<simplex_t<N>> pos(n), neg(n);
            int before = topology().n_simplices<N>();
            for (int r = 0; r < stride; ++r)
                for (size_t i = r; i < n; i += stride) {
                    auto c = cs[i];
                    auto & first = i % 2 ? pos[i] : neg[i];
                    auto & second = i % 2 ? neg[i] : pos[i];
                    if (i % 2 == 0) std::swap(c[0], c[1]);
#if FOCUS == 4
                    if constexpr (N == 1)
                        mc::require(!topology().exists({ v[c[0]], v[c[1]] }), "exists", "segment %s exists before it is built", text<N>(c).c_str());
#endif
                    first = build<N>(v, c);
                    second = topology().flip(first);
                    mc::transition(2);
                }
            mc::trace();
            mc::state(mc::hash_str(mc::fmt("%d %d %d", N, nv, stride)));
            std::set<mito::utilities::index_t<simplex_t<N>>> objects;
            std::set<mito::utilities::index_t<unoriented_simplex_t<N>>> footprints;
            for (size_t i = 0; i < n; ++i) {
                objects.insert(pos[i].id());
                objects.insert(neg[i].id());
                footprints.insert(pos[i]->footprint().id());
                mc::require(pos[i]->footprint() == neg[i]->footprint() && pos[i]->orientation() == -neg[i]->orientation(), "flip",
                            "%s and its flip do not ride on the same footprint", text<N>(cs[i]).c_str());
            }
            mc::require(objects.size() == 2 * n && footprints.size() == n, "identity", "%zu simplices are %zu objects on %zu footprints", 2 * n,
                        objects.size(), footprints.size());
#if FOCUS == 1
            // each again, in every order of its vertices, and from its boundary
            for (size_t i = 0; i < n; ++i) {
                Corners<N> p;
                for (int k = 0; k <= N; ++k) p[k] = k;
                do {
                    Corners<N> c;
                    for (int k = 0; k <= N; ++k) c[k] = cs[i][p[k]];
                    auto s = build<N>(v, c);
                    mc::transition();
                    mc::require(s == (sign(p) > 0 ? pos[i] : neg[i]), "identity",
                                "simplex %s, built again as %s, is another", text<N>(cs[i]).c_str(), text<N>(c).c_str());
                } while (std::next_permutation(p.begin(), p.end()));
                mc::require(topology().template simplex<N>(pos[i]->composition()) == pos[i], "identity",
                            "%s is not recovered from its boundary", text<N>(cs[i]).c_str());
            }
#endif
#if FOCUS == 2
            for (size_t i = 0; i < n; ++i)
                for (auto & s : { pos[i], neg[i] }) {
                    std::set<vertex_t> want, got, deep;
                    for (int k : cs[i]) want.insert(v[k]);
                    s->vertices(got);
                    if constexpr (N > 1)
                        for (auto & b : s->composition()) b->vertices(deep);
                    else
                        deep = got;
                    mc::transition();
                    mc::require(got == want && deep == want, "vertices", "%s has other vertices", text<N>(cs[i]).c_str());
                    auto w = s->vertices();
                    vertex_simplex_composition_t<N> u;
                    for (int k = 0; k <= N; ++k) u[k] = v[cs[i][k]];
                    mc::require(mito::math::permutation_sign(w, u) == (s == pos[i] ? 1 : -1), "order", "the vertices of %s come in an order of the other sign",
                                text<N>(cs[i]).c_str());
                    mc::require(s->sanityCheck(), "sanity", "%s fails its sanity check", text<N>(cs[i]).c_str());
                }
#endif
#if FOCUS == 4
            mc::require(topology().n_simplices<N>() == before + 2 * (int) n, "count", "%zu simplices count as %d", 2 * n, topology().n_simplices<N>() - before);
            for (size_t i = 0; i < n; ++i) {
                mc::transition();
                mc::require(topology().template exists<N>(pos[i]->composition()) && topology().exists_flipped(pos[i]) && topology().exists_flipped(neg[i]), "exists",
                            "%s is said not to exist", text<N>(cs[i]).c_str());
            }
            // forget one orientation of every third of them
            int gone = 0;
            for (size_t i = 0; i < n; i += 3) {
                auto & s = i % 2 ? neg[i] : pos[i];
                auto & t = i % 2 ? pos[i] : neg[i];
                topology().erase(s);
                ++gone;
                mc::transition();
                mc::require(!topology().exists_flipped(t), "exists-flipped", "the flip of %s exists after it was erased", text<N>(cs[i]).c_str());
                mc::require(topology().n_simplices<N>() == before + 2 * (int) n - gone, "count", "after %d erasures, %d simplices", gone,
                            topology().n_simplices<N>() - before);
            }
            for (size_t i = 0; i < n; ++i) {
                auto & t = i % 2 ? pos[i] : neg[i];
                mc::require(topology().exists_flipped(t) == (i % 3 != 0), "exists-flipped", "the existence of the flip of %s is misreported", text<N>(cs[i]).c_str());
            }
#else
            (void) before;
#endif
        });
    }

#if FOCUS == 8
    // all triangles on {nv} vertices, built once each; every {stride}-th of them goes
    static void erase_triangles(int nv, int stride)
    {
        mc::fork_case(mc::fmt("erasing every %d-th triangle on %d vertices", stride, nv), [&] {
            std::vector<vertex_t> v;
            for (int i = 0; i < nv; ++i) v.push_back(topology().vertex());
            auto cs = all<2>(nv);
            std::vector<simplex_t<2>> t;
            for (auto & c : cs) t.push_back(build<2>(v, c));
            std::map<std::pair<int, int>, int> users;
            auto edges = [](const Corners<2> & c) {
                return std::array<std::pair<int, int>, 3> { { { c[0], c[1] }, { c[1], c[2] }, { c[2], c[0] } } };
            };
            for (auto & c : cs)
                for (auto & e : edges(c)) ++users[e];
            int live = cs.size();
            auto judge = [&] {
                mc::transition();
                mc::require(topology().n_simplices<2>() == live && topology().n_simplices<1>() == (int) users.size(), "erasure",
                            "%d triangles and %d segments are left, instead of %d and %zu", topology().n_simplices<2>(), topology().n_simplices<1>(), live, users.size());
            };
            judge();
            for (int r = 0; r < stride; ++r) {
                for (size_t i = r; i < cs.size(); i += stride) {
                    topology().erase(t[i]);
                    --live;
                    for (auto & e : edges(cs[i]))
                        if (--users[e] == 0) users.erase(e);
                    judge();
                }
                for (size_t i = 0; i < cs.size(); ++i)
                    if ((int) (i % stride) > r) {
                        std::set<vertex_t> want, got;
                        for (int k : cs[i]) want.insert(v[k]);
                        t[i]->vertices(got);
                        mc::require(got == want && t[i]->sanityCheck(), "survivor", "triangle %s is not itself any more", text<2>(cs[i]).c_str());
                    }
                mc::trace();
                mc::state(mc::hash_str(mc::fmt("%d %d %d", nv, stride, r)));
            }
        });
    }

    // {n} tetrahedra in a row, each on vertices of its own
    static void erase_solids(int n, int stride)
    {
        mc::fork_case(mc::fmt("erasing every %d-th of %d tetrahedra", stride, n), [&] {
            std::vector<simplex_t<3>> t;
            for (int i = 0; i < n; ++i)
                t.push_back(topology().tetrahedron({ topology().vertex(), topology().vertex(), topology().vertex(), topology().vertex() }));
            int live = n, segments = topology().n_simplices<1>();
            mc::require(segments % n == 0 && topology().n_simplices<2>() == 4 * n, "count", "%d tetrahedra have %d faces and %d oriented edges", n,
                        topology().n_simplices<2>(), segments);
            for (int r = 0; r < stride; ++r)
                for (int i = r; i < n; i += stride) {
                    topology().erase(t[i]);
                    --live;
                    mc::transition();
                    mc::require(topology().n_simplices<3>() == live && topology().n_simplices<2>() == 4 * live && topology().n_simplices<1>() == segments / n * live,
                                "erasure", "with %d tetrahedra, there are %d, %d faces, %d oriented edges", live, topology().n_simplices<3>(), topology().n_simplices<2>(),
                                topology().n_simplices<1>());
                }
            mc::trace();
            mc::state(mc::hash_str(mc::fmt("%d %d", n, stride)));
        });
    }
#endif

    static void run()
    {
#if FOCUS == 8
        for (int stride : { 1, 2, 3, 7, 100 }) {
            erase_triangles(mc::pick(36, 60), stride);
            erase_solids(mc::pick(3000, 12000), stride);
        }
#else
        for (int stride : { 1, 2, 101 }) {
            complete<1>(mc::pick(200, 400), stride);
            complete<2>(mc::pick(50, 80), stride);
            complete<3>(mc::pick(26, 36), stride);
        }
#endif
    }
}

int main(int argc, char ** argv)
{
    mc::init(argc, argv, FOCUS == 1 ? "C04" : FOCUS == 2 ? "C05" : FOCUS == 4 ? "C06" : "C07");
#if FOCUS == 1
    odd_orders();
#endif
    crowds::run();
    using topo::Alphabet;
    bool er = FOCUS != 2;
    int f = FOCUS;
    // a segment and all that can happen to it
    topo::run("segments,V=2", f,
              Alphabet { .nv = 2, .seg = true, .all_orders = true, .dropping_builds = true, .pieces = 1 },
              mc::pick(5, 6));
    // every vertex order of segments and triangles over three vertices
    topo::run("plane,V=3", f,
              Alphabet { .nv = 3, .seg = true, .tri = true, .all_orders = true, .pieces = 1,
                         .drops = er, .max_held = 4 },
              mc::pick(4, 5));
    topo::run("triangles,V=3", f,
              Alphabet { .nv = 3, .tri = true, .all_orders = true, .dropping_builds = true,
                         .pieces = 3, .max_held = 3 },
              mc::pick(3, 4));
    // triangles sharing edges
    topo::run("triangles,V=4", f,
              Alphabet { .nv = 4, .tri = true, .max_held = 5 }, mc::pick(5, 6));
    // a tetrahedron in every vertex order
    topo::run("tetrahedra,V=4", f,
              Alphabet { .nv = 4, .tet = true, .all_orders = true, .pieces = mc::pick(1, 12), .max_held = 3 },
              mc::pick(3, 3));
    topo::run("solids,V=4", f,
              Alphabet { .nv = 4, .seg = true, .tri = true, .tet = true, .drops = er, .max_held = 4 },
              mc::pick(3, 4));
    // tetrahedra sharing faces
    topo::run("tetrahedra,V=5", f,
              Alphabet { .nv = 5, .tet = true, .max_held = 4 }, mc::pick(4, 5));
    // from an empty registry, and with the storage about to spill over into a second segment
    topo::run_forked("fresh,V=3", f,
                     Alphabet { .nv = 3, .seg = true, .tri = true, .max_held = 3 }, mc::pick(2, 4));
    topo::run_forked("prefilled,V=3", f,
                     Alphabet { .nv = 3, .seg = true, .tri = true, .max_held = 3 }, mc::pick(2, 3), 50);
    topo::run_forked("prefilled,V=4", f,
                     Alphabet { .nv = 4, .tri = true, .max_held = 3 }, mc::pick(2, 3), 98);
    return mc::finish();
}
