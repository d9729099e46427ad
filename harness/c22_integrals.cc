// C22: volumes and integrals over manifolds. Every rule, every order of the nodes, every monomial.
#include "mc.h"
#include "big.h"
#include <mito/geometry.h>
#include <mito/mesh.h>
#include <mito/manifolds.h>
#include <mito/quadrature.h>
namespace mg = mito::geometry;
namespace mq = mito::quadrature;
namespace mf = mito::functions;
using V = std::array<double, 3>;
template <int D> using C = mg::cartesian::coordinates_t<D>;
using P = mg::polar::coordinates_t<2>;
using S = mg::spherical::coordinates_t<3>;
template <int D> static V pos(const C<D> & x) { V r {}; for (int d = 0; d < D; ++d) r[d] = x[d]; return r; }
static V pos(const P & x) { return { x[0] * std::cos(x[1]), x[0] * std::sin(x[1]), 0 }; }
static V pos(const S & x) { return { x[0] * std::sin(x[1]) * std::cos(x[2]), x[0] * std::sin(x[1]) * std::sin(x[2]), x[0] * std::cos(x[1]) }; }
template <int D> static std::array<V, 3> frame(const C<D> &) { return { V { 1, 0, 0 }, V { 0, 1, 0 }, V { 0, 0, 1 } }; }
static std::array<V, 3> frame(const P & x) { return { V { std::cos(x[1]), std::sin(x[1]), 0 }, V { -std::sin(x[1]), std::cos(x[1]), 0 }, V {} }; }
static std::array<V, 3> frame(const S & x)
{
    double s = std::sin(x[1]), c = std::cos(x[1]), cp = std::cos(x[2]), sp = std::sin(x[2]);
    return { V { s * cp, s * sp, c }, V { c * cp, c * sp, -s }, V { -sp, cp, 0 } };
}
template <class T> static T at(const V & x)
{
    if constexpr (std::is_same_v<T, C<1>>) return C<1>({ x[0] });
    if constexpr (std::is_same_v<T, C<2>>) return C<2>({ x[0], x[1] });
    if constexpr (std::is_same_v<T, C<3>>) return C<3>({ x[0], x[1], x[2] });
    if constexpr (std::is_same_v<T, P>) return P(std::hypot(x[0], x[1]), std::atan2(x[1], x[0]));
    if constexpr (std::is_same_v<T, S>) return S(std::hypot(x[0], x[1], x[2]), std::atan2(std::hypot(x[0], x[1]), x[2]), std::atan2(x[1], x[0]));
}
static V sub(V a, V b) { return { a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
static double det(const std::vector<V> & a, int n)
{
    if (n == 1) return a[0][0];
    if (n == 2) return a[0][0] * a[1][1] - a[0][1] * a[1][0];
    return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
}
static double factorial(int n) { return n < 2 ? 1 : n * factorial(n - 1); }
// the points of a set in general position, away from the origin and the axis
static V point(int set, int i)
{
    static const double X[3][5][3] = { { { 1, 1, 1 }, { 2, 1, 1 }, { 1, 2, 1 }, { 1, 1, 2 }, { 2, 2, 2.5 } },
                                       { { 0.5, -1.5, 2 }, { -2.5, 0.75, 1 }, { 1.25, 3, -0.5 }, { 2, -2, -3 }, { -1, -1, 0.25 } },
                                       { { 1e-3, 2e-3, 1e-3 }, { 3e-3, 1e-3, 5e-3 }, { -1e-3, 4e-3, 2e-3 }, { 2e-3, -3e-3, 4e-3 }, { 5e-3, 5e-3, -1e-3 } } };
    return { X[set][i][0], X[set][i][1], X[set][i][2] };
}
// the mean of the monomial over the simplex with these corners: Gauss rules in collapsed coordinates, exact far beyond
// the degrees in question
struct Gauss {
    std::vector<double> x, w;
    Gauss(int n)
    {
        for (int i = 0; i < n; ++i) {
            double z = std::cos(M_PI * (i + 0.75) / (n + 0.5)), d = 1;
            for (int k = 0; k < 100; ++k) {
                double p0 = 1, p1 = z;
                for (int j = 2; j <= n; ++j) {
                    double p2 = ((2 * j - 1) * z * p1 - (j - 1) * p0) / j;
                    p0 = p1, p1 = p2;
                }
                d = n * (z * p1 - p0) / (z * z - 1);
                z -= p1 / d;
            }
            x.push_back((1 + z) / 2);
            w.push_back(1 / ((1 - z * z) * d * d));
        }
    }
};
static double monomial(const V & x, const std::array<int, 3> & e) { return std::pow(x[0], e[0]) * std::pow(x[1], e[1]) * std::pow(x[2], e[2]); }
static double mean(const std::vector<V> & corners, const std::array<int, 3> & e)
{
    static const Gauss g(6);
    int N = corners.size() - 1, n = g.x.size();
    double sum = 0;
    auto value = [&](std::array<double, 4> b) {
        V x {};
        for (int i = 0; i <= N; ++i)
            for (int d = 0; d < 3; ++d) x[d] += b[i] * corners[i][d];
        return monomial(x, e);
    };
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < (N > 1 ? n : 1); ++j)
            for (int k = 0; k < (N > 2 ? n : 1); ++k) {
                double u = g.x[i], v = g.x[j], t = g.x[k];
                if (N == 1) sum += g.w[i] * value({ 1 - u, u, 0, 0 });
                if (N == 2) sum += 2 * g.w[i] * g.w[j] * u * value({ 1 - u, u * (1 - v), u * v, 0 });
                if (N == 3) sum += 6 * g.w[i] * g.w[j] * g.w[k] * u * u * v * value({ 1 - u, u * (1 - v), u * v * (1 - t), u * v * t });
            }
    return sum;
}
static std::vector<std::array<int, 3>> exponents(int D, int degree)
{
    std::vector<std::array<int, 3>> r;
    for (int a = 0; a <= degree; ++a)
        for (int b = 0; b <= (D > 1 ? degree - a : 0); ++b)
            for (int c = 0; c <= (D > 2 ? degree - a - b : 0); ++c) r.push_back({ a, b, c });
    return r;
}
// the rules themselves
template <class T, int N, int r> static void rule(const char * name)
{
    mc::for_case(mc::fmt("rule on the %s of degree %d", name, r), [&] {
        constexpr auto q = mq::quadrature_rule<mq::GAUSS, T, r>();
        double sum = 0;
        for (int i = 0; i < q.npoints; ++i) {
            auto x = q.point(i);
            double rest = 1;
            for (int d = 0; d < N; ++d) {
                mc::require(x[d] > -1e-15, "outside", "point %d has component %g", i, x[d]);
                rest -= x[d];
            }
            mc::require(rest > -1e-15, "outside", "point %d has component %g", i, rest);
            sum += q.weight(i);
        }
        mc::require(std::abs(sum - 1) < 1e-15, "weights", "the weights add up to %.17g", sum);
        for (auto & e : exponents(N, r)) {
            // the mean over the reference simplex
            double want = factorial(N) * factorial(e[0]) * factorial(e[1]) * factorial(e[2]) / factorial(N + e[0] + e[1] + e[2]), got = 0;
            for (int i = 0; i < q.npoints; ++i) {
                auto x = q.point(i);
                V y {};
                for (int d = 0; d < N; ++d) y[d] = x[d];
                got += q.weight(i) * monomial(y, e);
            }
            mc::require(std::abs(got - want) < 1e-14, "degree", "the mean of x^%d y^%d z^%d is %.16g instead of %.16g", e[0], e[1], e[2], got, want);
            mc::evaluation(true, mc::mix(mc::hash_str(mc::current), e[0] * 100 + e[1] * 10 + e[2]));
        }
    });
}
using Order = std::vector<int>;
static std::string str(const Order & o)
{
    std::string s;
    for (int i : o) s += std::to_string(i);
    return s;
}
static bool near(double a, double b, double scale) { return std::abs(a - b) <= 1e-11 * scale; }
// the integrals over a manifold against those over its cells
template <class T, int r, class M> static void integrate(const M & manifold, const std::vector<std::vector<V>> & cells, const std::vector<double> & volumes, double size, double slack)
{
    constexpr int D = T::dim;
    const auto integrator = mq::integrator<mq::GAUSS, r>(manifold);
    for (auto & e : exponents(D, r)) {
        const auto f = mf::function([e](const T & x) { return monomial(pos(x), e); });
        double want = 0, scale = slack * std::pow(size, e[0] + e[1] + e[2]);    // a cell may be flat but for rounding
        for (size_t i = 0; i < cells.size(); ++i) {
            want += volumes[i] * mean(cells[i], e);
            scale += std::abs(volumes[i]) * std::pow(size, e[0] + e[1] + e[2]);
        }
        double got = integrator.integrate(f);
        mc::require(near(got, want, scale), "integral", "the integral of x^%d y^%d z^%d of degree %d is %.15g instead of %.15g", e[0], e[1], e[2], r, got, want);
        // linear combinations, and again
        const auto g = 2.0 * f + mf::function([](const T &) { return 3.0; });
        double all = 0;
        for (double v : volumes) all += v;
        double scale1 = scale + slack;
        for (double v : volumes) scale1 += std::abs(v);
        mc::require(near(integrator.integrate(g), 2 * want + 3 * all, 3 * scale1), "linear", "the integral of 2 f + 3 is %.15g", integrator.integrate(g));
        mc::transition(2);
    }
}
// the unit of length: domains of microns and of megametres
static double unit = 1;
template <class T, int N> static void manifolds(const char * name, int nodes, int max_cells)
{
    constexpr int D = T::dim;
    using cell_t = mg::geometric_simplex_t<N, D>;
    using mesh_t = mito::mesh::mesh_t<cell_t>;
    // all orders of all choices of the nodes
    std::vector<Order> menu;
    Order all(nodes);
    for (int i = 0; i < nodes; ++i) all[i] = i;
    do {
        Order o(all.begin(), all.begin() + N + 1);
        if (std::find(menu.begin(), menu.end(), o) == menu.end()) menu.push_back(o);
    } while (std::next_permutation(all.begin(), all.end()));
    for (int set = 0; set < 3; ++set) {
        std::vector<std::vector<int>> sequences;
        for (int i = 0; i < (int) menu.size(); ++i) sequences.push_back({ i });
        if (max_cells > 1)
            for (int i = 0; i < (int) menu.size(); ++i)
                for (int j = 0; j < (int) menu.size(); ++j) {
                    // cells on the same nodes are one simplex to the integrator; they are not part of any sensible mesh
                    auto a = menu[i], b = menu[j];
                    std::sort(a.begin(), a.end()), std::sort(b.begin(), b.end());
                    if (a != b && (i * 7 + j) % mc::pick(N == 3 ? 17 : N == 2 ? 5 : 1, N == 3 ? 3 : 1) == 0) sequences.push_back({ i, j });
                }
        for (auto & seq : sequences)
            for (int how = 0; how < (seq.size() > 1 ? 3 : 1); ++how) {
                std::string label = mc::fmt("%s set %d", name, set);
                if (unit != 1) label += mc::fmt(" in units of %g", unit);
                for (int i : seq) label += " " + str(menu[i]);
                if (how) label += how == 1 ? " after erasing" : " replaced";
                mc::for_case(label, [&] {
                    mg::coordinate_system_t<T> system;
                    std::vector<mg::node_t<D>> n;
                    double size = 0;
                    for (int i = 0; i < nodes; ++i) {
                        V x = point(set, i);
                        if (D < 3) x[2] = 0;
                        if (D < 2) x[1] = 0, x[0] = point(set, i)[0] + i * point(set, 1)[0];
                        for (double & c : x) c *= unit;
                        size = std::max({ size, std::abs(x[0]), std::abs(x[1]), std::abs(x[2]) });
                        n.push_back(mg::node(system, at<T>(x)));
                    }
                    mesh_t mesh;
                    std::vector<std::vector<V>> cells;
                    std::vector<Order> orders;
                    auto insert = [&](const Order & o) {
                        [&]<size_t... I>(std::index_sequence<I...>) { mesh.insert({ n[o[I]]... }); }(std::make_index_sequence<N + 1> {});
                    };
                    for (int i : seq) insert(menu[i]);
                    for (size_t k = how > 0; k < seq.size(); ++k) {
                        orders.push_back(menu[seq[k]]);
                        cells.push_back({});
                        for (int i : menu[seq[k]]) cells.back().push_back(pos(system.coordinates(n[i]->point())));
                    }
                    if (how) mesh.erase(*std::begin(mesh.cells()));
                    // the first cell makes way for the second, once the manifold has been asked for its volume
                    auto replace = [&](const auto & manifold) {
                        if (how < 2) return;
                        mesh.erase(*std::begin(mesh.cells()));
                        (void) manifold.volume();
                        insert(menu[seq[0]]);
                        (void) manifold.volume(), (void) manifold.volume(*std::begin(mesh.cells()));
                        mc::require(manifold.nElements() == 1, "elements", "%d elements", manifold.nElements());
                        mesh.erase(*std::begin(mesh.cells()));
                        insert(menu[seq[1]]);
                    };
                    // normals, as needed, given in the orthonormal frame at every point
                    auto run = [&](const auto & manifold, auto &&... normal) {
                        std::vector<double> volumes;
                        double total = 0, scale = 0, large = 1;
                        for (size_t c = 0; c < cells.size(); ++c) {
                            const auto & x0 = system.coordinates(n[orders[c][0]]->point());
                            auto F = frame(x0);
                            std::vector<V> rows;
                            (rows.push_back([&] {
                                V r {};
                                for (int d = 0; d < D; ++d)
                                    for (int k = 0; k < 3; ++k) r[k] += normal(x0)[d] * F[d][k];
                                large = std::max({ large, std::abs(r[0]), std::abs(r[1]), std::abs(r[2]) });
                                return r;
                            }()), ...);
                            for (int i = 1; i <= N; ++i) rows.push_back(sub(cells[c][i], cells[c][0]));
                            // the determinant in the frame of the first node: frames are positively oriented
                            volumes.push_back(det(rows, D) / factorial(N));
                            total += volumes.back();
                            scale += std::abs(volumes.back());
                        }
                        const double slack = std::pow(size, N) * 1e-2 * (unit == 1 ? 1 : large);
                        scale += slack;
                        replace(manifold);
                        mc::require(manifold.nElements() == (int) cells.size(), "elements", "%d elements", manifold.nElements());
                        size_t c = 0;
                        for (auto & cell : manifold.elements()) {
                            mc::require(near(manifold.volume(cell), volumes[c], scale), "volume", "cell %zu has volume %.15g instead of %.15g", c, manifold.volume(cell), volumes[c]);
                            ++c;
                        }
                        mc::require(near(manifold.volume(), total, scale), "volume", "the volume is %.15g instead of %.15g", manifold.volume(), total);
                        if constexpr (N == 1 || N == 3) {
                            integrate<T, 1>(manifold, cells, volumes, size, slack);
                            integrate<T, 2>(manifold, cells, volumes, size, slack);
                        } else {
                            integrate<T, 1>(manifold, cells, volumes, size, slack);
                            integrate<T, 2>(manifold, cells, volumes, size, slack);
                            integrate<T, 3>(manifold, cells, volumes, size, slack);
                            integrate<T, 4>(manifold, cells, volumes, size, slack);
                        }
                    };
                    if constexpr (N == D) run(mito::manifolds::manifold(mesh, system));
                    else if constexpr (D - N == 1) {
                        mito::tensor::vector_t<D> k;
                        for (int d = 0; d < D; ++d) k[d] = 0.5 - d * 1.25;
                        const auto constant = mf::constant<T>(k);
                        run(mito::manifolds::submanifold(mesh, system, constant), constant);
                        // one that depends on the point
                        const auto normal = mf::component<T, 0> * constant;
                        run(mito::manifolds::submanifold(mesh, system, normal), normal);
                    } else {
                        mito::tensor::vector_t<D> k { 0.5, -0.75, 1.5 }, l { -0.25, 1, 0.75 };
                        const auto first = mf::constant<T>(k), second = mf::constant<T>(l);
                        run(mito::manifolds::submanifold(mesh, system, first, second), first, second);
                        run(mito::manifolds::submanifold(mesh, system, second, first), second, first);
                    }
                    mc::evaluation(true, mc::hash_str(label));
                });
            }
    }
}

// meshes of hundreds of cells, a third of them erased
template <class T, int N> static void many(const char * name, int side)
{
    constexpr int D = T::dim;
    using cell_t = mg::geometric_simplex_t<N, D>;
    for (int stride : { 1, 7 })
        mc::for_case(mc::fmt("%s, %d along each side, by strides of %d", name, side, stride), [&] {
            big::Block<N> block(side);
            mg::coordinate_system_t<T> system;
            std::vector<mg::node_t<D>> n;
            for (auto & p : block.points) n.push_back(mg::node(system, at<T>({ 1 + p[0] / 4 + p[1] / 8, N > 1 ? 1 + p[1] / 5 - p[0] / 16 : 0, N > 2 ? p[2] / 4 + 1 : 0 })));
            mito::mesh::mesh_t<cell_t> mesh;
            for (int r = 0; r < stride; ++r)
                for (size_t i = r; i < block.cells.size(); i += stride)
                    [&]<size_t... I>(std::index_sequence<I...>) { mesh.insert({ n[block.cells[i][I]]... }); }(std::make_index_sequence<N + 1> {});
            std::vector<cell_t *> doomed;
            int k = 0;
            for (auto & c : mesh.cells())
                if (k++ % 3 == 1) doomed.push_back(&c);
            for (auto * c : doomed) mesh.erase(*c);
            auto manifold = mito::manifolds::manifold(mesh, system);
            std::vector<std::vector<V>> cells;
            std::vector<double> volumes;
            double total = 0;
            for (auto & c : mesh.cells()) {
                cells.push_back({});
                for (auto & x : c.nodes()) cells.back().push_back(pos(system.coordinates(x->point())));
                std::vector<V> rows;
                for (int i = 1; i <= N; ++i) rows.push_back(sub(cells.back()[i], cells.back()[0]));
                volumes.push_back(det(rows, D) / factorial(N));
                total += volumes.back();
            }
            mc::require(cells.size() == block.cells.size() - doomed.size() && manifold.nElements() == (int) cells.size(), "elements", "%d elements", manifold.nElements());
            mc::require(near(manifold.volume(), total, 1 + std::abs(total)), "volume", "the volume is %.15g instead of %.15g", manifold.volume(), total);
            double size = 2 + side / 2.0;
            integrate<T, 1>(manifold, cells, volumes, size, 1e-2);
            integrate<T, 2>(manifold, cells, volumes, size, 1e-2);
            if constexpr (N == 2) integrate<T, 4>(manifold, cells, volumes, size, 1e-2);
            mc::evaluation(true, mc::hash_str(mc::current));
        });
}

int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C22");
    rule<mg::reference_segment_t, 1, 1>("segment");
    rule<mg::reference_segment_t, 1, 2>("segment");
    rule<mg::reference_triangle_t, 2, 1>("triangle");
    rule<mg::reference_triangle_t, 2, 2>("triangle");
    rule<mg::reference_triangle_t, 2, 3>("triangle");
    rule<mg::reference_triangle_t, 2, 4>("triangle");
    rule<mg::reference_tetrahedron_t, 3, 1>("tetrahedron");
    rule<mg::reference_tetrahedron_t, 3, 2>("tetrahedron");
    manifolds<C<1>, 1>("segments in 1D", 4, 2);
    manifolds<C<2>, 1>("segments in 2D", 4, 2);
    manifolds<C<3>, 1>("segments in 3D", 4, 2);
    manifolds<C<2>, 2>("triangles in 2D", 4, 2);
    manifolds<C<3>, 2>("triangles in 3D", 4, 2);
    manifolds<C<3>, 3>("tetrahedra", 5, 2);
    manifolds<P, 2>("triangles in polar coordinates", 4, 2);
    manifolds<P, 1>("segments in polar coordinates", 4, 2);
    manifolds<S, 3>("tetrahedra in spherical coordinates", 5, 2);
    manifolds<S, 2>("triangles in spherical coordinates", 4, 2);
    for (double u : { 1e-7, 1e-3, 1e6 }) {
        unit = u;
        manifolds<C<1>, 1>("segments in 1D", 4, 1);
        manifolds<C<2>, 1>("segments in 2D", 3, 1);
        manifolds<C<3>, 1>("segments in 3D", 3, 1);
        manifolds<C<2>, 2>("triangles in 2D", 4, 1);
        manifolds<C<3>, 2>("triangles in 3D", 3, 1);
        manifolds<C<3>, 3>("tetrahedra", 4, 1);
        manifolds<P, 2>("triangles in polar coordinates", 3, 1);
        manifolds<S, 3>("tetrahedra in spherical coordinates", 4, 1);
    }
    unit = 1;
    many<C<1>, 1>("many segments", 1700);
    many<C<2>, 2>("many triangles", 28);
    many<C<3>, 3>("many tetrahedra", 7);
    many<P, 2>("many triangles in polar coordinates", 10);
    many<S, 3>("many tetrahedra in spherical coordinates", 4);
    return mc::finish();
}
