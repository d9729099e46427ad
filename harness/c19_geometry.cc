// C19: geometric simplices. Every order of their nodes, on every set of a few nodes.
#include "mc.h"
#include <mito/geometry.h>
namespace mg = mito::geometry;
namespace mt = mito::topology;
using V = std::array<double, 3>;
// the unit of length, and lengths compared relative to it
static double unit = 1;
static bool near(double a, double b, double s = 0) { return std::abs(a - b) <= 1e-11 * (unit + s); }
template <int D> using C = mg::cartesian::coordinates_t<D>;
using P = mg::polar::coordinates_t<2>;
using S = mg::spherical::coordinates_t<3>;
template <int D> static V pos(const C<D> & x) { V r {}; for (int d = 0; d < D; ++d) r[d] = x[d]; return r; }
static V pos(const P & x) { return { x[0] * std::cos(x[1]), x[0] * std::sin(x[1]), 0 }; }
static V pos(const S & x) { return { x[0] * std::sin(x[1]) * std::cos(x[2]), x[0] * std::sin(x[1]) * std::sin(x[2]), x[0] * std::cos(x[1]) }; }
template <int D> static std::array<V, 3> frame(const C<D> &) { return { V { 1, 0, 0 }, V { 0, 1, 0 }, V { 0, 0, 1 } }; }
static std::array<V, 3> frame(const P & x) { return { V { std::cos(x[1]), std::sin(x[1]), 0 }, V { -std::sin(x[1]), std::cos(x[1]), 0 }, V {} }; }
static std::array<V, 3> frame(const S & x)
{
    double s = std::sin(x[1]), c = std::cos(x[1]), cp = std::cos(x[2]), sp = std::sin(x[2]);
    return { V { s * cp, s * sp, c }, V { c * cp, c * sp, -s }, V { -sp, cp, 0 } };
}
// point {i} of a few in general position
template <class T>
static T place(int set, int i)
{
    static const double X[3][6][3] = {
        { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, 1, 1 }, { -1, 2, 0.5 } },
        { { 1, 2, -1 }, { -3, 0.5, 2 }, { 0.25, -1, 4 }, { 2, 2, 2 }, { 5, -1, 0.5 }, { 0.5, 0.125, -2 } },
        { { 1e6, 1, 2 }, { 1e6 + 1, 3, -2 }, { 1e6 - 2, 0, 7 }, { 1e6, -4, -4 }, { 1e6 + 5, 5, 5 }, { 1e6, 0, 0 } } };
    double x[3];
    for (int d = 0; d < 3; ++d) x[d] = X[set % 3][i][d] * unit;
    if constexpr (std::is_same_v<T, C<1>>) return C<1>({ x[0] + x[1] / 8 + x[2] / 64 });
    if constexpr (std::is_same_v<T, C<2>>) return C<2>({ x[0] + x[2] / 16, x[1] - x[2] / 8 });
    if constexpr (std::is_same_v<T, C<3>>) return C<3>({ x[0], x[1], x[2] });
    if constexpr (std::is_same_v<T, P>) return P(unit * (1. + i * 0.75 + set), 1.1 * i - set);
    if constexpr (std::is_same_v<T, S>) return S(unit * (1. + i * 0.75 + set), 0.3 + 0.4 * i, 1.7 * i - set);
}
using Order = std::vector<int>;
static std::string str(const Order & o)
{
    std::string s;
    for (int i : o) s += std::to_string(i);
    return s;
}
static int parity(const Order & a, const Order & b)
{
    // sign of the permutation from a to b (0 if not of the same elements)
    Order p;
    for (int x : a) {
        auto it = std::find(b.begin(), b.end(), x);
        if (it == b.end()) return 0;
        p.push_back(it - b.begin());
    }
    int s = 1;
    for (size_t i = 0; i < p.size(); ++i)
        for (size_t j = i + 1; j < p.size(); ++j)
            if (p[i] > p[j]) s = -s;
    return s;
}
template <class T, int N>
struct World {
    static constexpr int D = T::dim;
    using cell_t = mg::geometric_simplex_t<N, D>;
    using node_t = mg::node_t<D>;
    mg::coordinate_system_t<T> system;
    std::vector<node_t> nodes;
    std::vector<V> at;
    World(int set, int n)
    {
        int before = mg::point_cloud<D>().size();
        for (int i = 0; i < n; ++i) {
            auto x = place<T>(set, i);
            nodes.push_back(mg::node(system, x));
            at.push_back(pos(x));
            mc::require(system.coordinates(nodes[i]->point()) == x, "node", "node %d is not where it was placed", i);
            for (int j = 0; j < i; ++j)
                mc::require(!(nodes[i] == nodes[j]) && !(nodes[i]->vertex() == nodes[j]->vertex()) && !(nodes[i]->point() == nodes[j]->point()), "node", "nodes %d and %d have something in common", i, j);
        }
        mc::require(mg::point_cloud<D>().size() == before + n, "cloud", "%d points became %d with %d nodes", before, mg::point_cloud<D>().size(), n);
    }
    cell_t make(const Order & o)
    {
        return [&]<size_t... I>(std::index_sequence<I...>) {
            typename cell_t::nodes_type n { nodes[o[I]]... };
            if constexpr (N == 1) return mg::segment<D>(std::move(n));
            else if constexpr (N == 2) return mg::triangle<D>(std::move(n));
            else return mg::tetrahedron<D>(std::move(n));
        }(std::make_index_sequence<N + 1> {});
    }
    Order names(const auto & list, auto && of)
    {
        Order r;
        for (auto & x : list) {
            int i = 0;
            while (i < (int) nodes.size() && !of(nodes[i], x)) ++i;
            mc::require(i < (int) nodes.size(), "foreign", "a node or vertex from elsewhere");
            r.push_back(i);
        }
        return r;
    }
    Order of_nodes(const cell_t & c) { return names(c.nodes(), [](auto & n, auto & x) { return n == x; }); }
    Order of_simplex(const mt::simplex_t<N> & s) { return names(s->vertices(), [](auto & n, auto & x) { return n->vertex() == x; }); }
    // a cell is the oriented simplex on its nodes, in their order
    void consistent(const cell_t & c, const char * which)
    {
        mc::require(parity(of_nodes(c), of_simplex(c.simplex())) == 1, "orientation", "%s: the simplex has vertices %s, the cell nodes %s", which, str(of_simplex(c.simplex())).c_str(), str(of_nodes(c)).c_str());
    }
    void run(const Order & o)
    {
        auto c = make(o);
        mc::require(of_nodes(c) == o, "nodes", "the nodes are %s", str(of_nodes(c)).c_str());
        consistent(c, "cell");
        // barycenter
        V m {};
        for (int i : o)
            for (int d = 0; d < 3; ++d) m[d] += at[i][d] / (N + 1);
        auto b = pos(mg::barycenter(c, system));
        for (int d = 0; d < 3; ++d) mc::require(near(b[d], m[d], std::abs(m[d])), "barycenter", "coordinate %d of the barycenter is %.15g instead of %.15g", d, b[d], m[d]);
        // directors, in the frame at the first node
        auto [p0, dirs] = mg::directors(c, system);
        mc::require(p0 == system.coordinates(nodes[o[0]]->point()), "directors", "the directors stem from elsewhere");
        auto F = frame(p0);
        for (int j = 0; j < N; ++j)
            for (int d = 0; d < D; ++d) {
                double want = 0;
                for (int k = 0; k < 3; ++k) want += (at[o[j + 1]][k] - at[o[0]][k]) * F[d][k];
                mc::require(near(dirs[j][d], want), "directors", "component %d of director %d is %.15g instead of %.15g", d, j, dirs[j][d], want);
            }
        // parametrization, at a lattice in the reference simplex
        if constexpr (std::is_same_v<T, C<D>>) {
            const auto f = c.parametrization(system);
            for (int a = 0; a <= 4; ++a)
                for (int bb = 0; bb <= (N > 1 ? 4 - a : 0); ++bb)
                    for (int cc = 0; cc <= (N > 2 ? 4 - a - bb : 0); ++cc) {
                        double xi[4] = { a / 4., bb / 4., cc / 4., 0 };
                        xi[N] = 1;
                        for (int i = 0; i < N; ++i) xi[N] -= xi[i];
                        mito::tensor::vector_t<N> v;
                        for (int i = 0; i < N; ++i) v[i] = xi[i];
                        const typename cell_t::parametric_coordinates_type pt(v);
                        auto x = f(pt);
                        for (int d = 0; d < D; ++d) {
                            double want = 0;
                            for (int i = 0; i <= N; ++i) want += xi[i] * at[o[i]][d];
                            mc::require(near(x[d], want, std::abs(want)), "parametrization", "coordinate %d at (%g %g %g) is %.15g instead of %.15g", d, xi[0], xi[1], xi[2], x[d], want);
                        }
                    }
        }
        // the flipped cell
        auto f = mg::flip(c);
        consistent(f, "flipped cell");
        mc::require(parity(of_nodes(f), o) == -1, "flip", "the flipped cell has nodes %s", str(of_nodes(f)).c_str());
        mc::require(f.simplex() == mt::flip(c.simplex()) && f.simplex()->footprint() == c.simplex()->footprint(), "flip", "the flipped cell is not on the flipped simplex");
        auto ff = mg::flip(f);
        consistent(ff, "twice flipped cell");
        mc::require(ff.simplex() == c.simplex() && parity(of_nodes(ff), o) == 1, "flip", "flipping twice gives nodes %s", str(of_nodes(ff)).c_str());
        // the cell on its simplex, given the nodes in any order, amid others
        Order all(nodes.size());
        for (size_t i = 0; i < all.size(); ++i) all[i] = i;
        do {
            std::vector<node_t> given;
            for (int i : all) given.push_back(nodes[i]);
            auto g = mg::geometric_simplex<D>(c.simplex(), given);
            mc::require(g.simplex() == c.simplex(), "rebuild", "the cell is on another simplex");
            consistent(g, "rebuilt cell");
            mc::transition();
        } while (std::next_permutation(all.begin(), all.end()));
        // from the simplex and the nodes in an order of the same orientation
        Order e = o;
        std::sort(e.begin(), e.end());
        do {
            if (parity(e, o) != 1) continue;
            auto g = [&]<size_t... I>(std::index_sequence<I...>) {
                return cell_t(c.simplex(), typename cell_t::nodes_type { nodes[e[I]]... });
            }(std::make_index_sequence<N + 1> {});
            mc::require(of_nodes(g) == e && g.simplex() == c.simplex(), "rebuild", "the cell is on other nodes");
            // the same nodes in this order give the same simplex
            mc::require(make(e).simplex() == c.simplex(), "same", "nodes %s give another simplex", str(e).c_str());
        } while (std::next_permutation(e.begin(), e.end()));
        // copies
        cell_t copy(c), moved(cell_t { c }), assigned(f);
        assigned = c;
        for (auto * x : { &copy, &moved, &assigned }) mc::require(of_nodes(*x) == o && x->simplex() == c.simplex(), "copy", "a copy of the cell is another cell");
        mc::trace();
        mc::evaluation(true, mc::hash_str(mc::current));
    }
};
template <class T, int N>
static void cells(const char * name, int n)
{
    for (int set = 0; set < 3; ++set)
        for (int pre = 0; pre < 3; ++pre)
            for (int mask = 0; mask < 1 << n; ++mask) {
                if (__builtin_popcount(mask) != N + 1) continue;
                Order o;
                for (int i = 0; i < n; ++i)
                    if (mask >> i & 1) o.push_back(i);
                auto sorted = o;
                do
                    mc::for_case(mc::fmt("%s set %d registered %d nodes %s", name, set, pre, str(o).c_str()) + (unit == 1 ? "" : mc::fmt(" in units of %g", unit)), [&] {
                        World<T, N> w(set, n);
                        // the simplex, or its opposite, may be known beforehand
                        auto before = sorted;
                        if (pre == 2) std::swap(before[0], before[1]);
                        std::optional<mg::geometric_simplex_t<N, T::dim>> held;
                        if (pre) held.emplace(w.make(before));
                        w.run(o);
                    });
                while (std::next_permutation(o.begin(), o.end()));
            }
}
// flipping the diagonal of two triangles
template <class T>
static void diagonals(const char * name)
{
    Order p { 0, 1, 2, 3 };
    do
        for (int order = 0; order < 2; ++order)
            for (int own = 0; own < 2; ++own)
                for (int ra = 0; ra < 3; ++ra)
                    for (int rb = 0; rb < 3; ++rb)
                        mc::for_case(mc::fmt("diagonal %s %s order %d%s turned %d %d", name, str(p).c_str(), order, own ? " nodes of their own" : "", ra, rb), [&] {
                            World<T, 2> w(1, 4);
                            Order a { p[0], p[1], p[2] }, b { p[1], p[0], p[3] };
                            std::rotate(a.begin(), a.begin() + ra, a.end());
                            std::rotate(b.begin(), b.begin() + rb, b.end());
                            auto A = w.make(a);
                            auto B = own ? [&] {
                                typename decltype(A)::nodes_type n { mg::node_t<T::dim>(w.nodes[b[0]]->vertex(), w.nodes[b[0]]->point()),
                                                                     mg::node_t<T::dim>(w.nodes[b[1]]->vertex(), w.nodes[b[1]]->point()),
                                                                     mg::node_t<T::dim>(w.nodes[b[2]]->vertex(), w.nodes[b[2]]->point()) };
                                return mg::triangle<T::dim>(std::move(n));
                            }() : w.make(b);
                            auto [X, Y] = order ? mg::flip_diagonal(std::pair(B, A)) : mg::flip_diagonal(std::pair(A, B));
                            // the outline of the two is that of the original ones, and they share the other diagonal
                            std::multiset<std::pair<int, int>> got, want { { p[1], p[2] }, { p[2], p[0] }, { p[0], p[3] }, { p[3], p[1] }, { p[2], p[3] }, { p[3], p[2] } };
                            for (auto * x : { &X, &Y }) {
                                auto n = w.names(x->nodes(), [](auto & n, auto & x) { return n->vertex() == x->vertex() && n->point() == x->point(); });
                                mc::require(parity(n, w.of_simplex(x->simplex())) == 1, "orientation", "a triangle with nodes %s is on simplex %s", str(n).c_str(), str(w.of_simplex(x->simplex())).c_str());
                                for (int i = 0; i < 3; ++i) got.insert({ n[i], n[(i + 1) % 3] });
                            }
                            mc::require(got == want, "diagonal", "the new triangles do not fill the outline of the two");
                            mc::trace();
                            mc::evaluation(true, mc::hash_str(mc::current));
                        });
    while (std::next_permutation(p.begin(), p.end()));
}
// the points of the cloud
template <int D>
static void cloud()
{
    mc::for_case(mc::fmt("point cloud %d", D), [&] {
        auto & cloud = mg::point_cloud<D>();
        std::vector<mg::point_t<D>> points;
        int before = cloud.size();
        for (int n = 0; n < mc::pick(350, 1000); ++n) {
            points.push_back(cloud.point());
            mc::require(cloud.size() == before + n + 1, "cloud", "%d points after %d were added", cloud.size(), n + 1);
            if (n % 7 == 0 || n % 100 < 3) {
                std::set<decltype(points[0].id())> seen;
                int count = 0;
                for (const auto & p : cloud) seen.insert(p.id()), ++count;
                mc::require(count == (int) points.size() && (int) seen.size() == count, "cloud", "iterating yields %d points, %zu of them distinct, instead of %zu", count, seen.size(), points.size());
                for (auto & p : points) mc::require(seen.count(p.id()), "cloud", "a point is missing");
                int c2 = 0;
                for (const auto & p : cloud.points()) c2 += seen.count(p.id());
                mc::require(c2 == count, "cloud", "points() yields %d points instead of %d", c2, count);
            }
            mc::transition();
        }
        mc::trace();
        mc::evaluation(true, mc::hash_str(mc::current));
    });
}
int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C19");
    cells<C<1>, 1>("segments in 1D", 3);
    cells<C<2>, 1>("segments in 2D", 4);
    cells<C<3>, 1>("segments in 3D", 4);
    cells<C<2>, 2>("triangles in 2D", 4);
    cells<C<3>, 2>("triangles in 3D", 5);
    cells<C<3>, 3>("tetrahedra in 3D", mc::pick(5, 6));
    cells<P, 1>("segments in polar coordinates", 4);
    cells<P, 2>("triangles in polar coordinates", 4);
    cells<S, 1>("segments in spherical coordinates", 3);
    cells<S, 2>("triangles in spherical coordinates", 4);
    cells<S, 3>("tetrahedra in spherical coordinates", 4);
    for (double u : { 1e-9, 1e7 }) {
        unit = u;
        cells<C<1>, 1>("segments in 1D", 2);
        cells<C<2>, 1>("segments in 2D", 2);
        cells<C<3>, 1>("segments in 3D", 2);
        cells<C<2>, 2>("triangles in 2D", 3);
        cells<C<3>, 2>("triangles in 3D", 3);
        cells<C<3>, 3>("tetrahedra in 3D", 4);
        cells<P, 1>("segments in polar coordinates", 2);
        cells<P, 2>("triangles in polar coordinates", 3);
        cells<S, 1>("segments in spherical coordinates", 2);
        cells<S, 2>("triangles in spherical coordinates", 3);
        cells<S, 3>("tetrahedra in spherical coordinates", 4);
    }
    unit = 1;
    diagonals<C<2>>("2D");
    diagonals<C<3>>("3D");
    diagonals<P>("polar");
    cloud<1>();
    cloud<2>();
    cloud<3>();
    return mc::finish();
}
