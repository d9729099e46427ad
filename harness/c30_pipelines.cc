// C30: meshes that went through other parts of the library: refined, partitioned, written and read, taken to
// other coordinates and back, grown and eroded. The divergence theorem, and the integrals of polynomials.
#include "mc.h"
#include <filesystem>
#include <numeric>
#include <mito/io.h>
#include <mito/manifolds.h>
#include <mito/mesh.h>
#include <mito/mesh/metis/public.h>
#include <mito/quadrature.h>
namespace mg = mito::geometry;
namespace mf = mito::functions;
namespace mq = mito::quadrature;
namespace mm = mito::manifolds;

static std::string base;
// the unit of length
static double unit = 1;
template <int D> using V = std::array<double, D>;
template <int D> using Cell = std::array<V<D>, D + 1>;
template <int D> using Facet = std::array<V<D>, D>;

template <int D> static V<D> minus(const V<D> & a, const V<D> & b)
{
    V<D> r;
    for (int d = 0; d < D; ++d) r[d] = a[d] - b[d];
    return r;
}
static double det(const V<2> & a, const V<2> & b) { return a[0] * b[1] - a[1] * b[0]; }
static V<3> cross(const V<3> & a, const V<3> & b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
template <int D> static double dot(const V<D> & a, const V<D> & b)
{
    double s = 0;
    for (int d = 0; d < D; ++d) s += a[d] * b[d];
    return s;
}
template <int D> static double volume(const Cell<D> & c)
{
    if constexpr (D == 2) return det(minus<2>(c[1], c[0]), minus<2>(c[2], c[0])) / 2;
    else return dot<3>(cross(minus<3>(c[1], c[0]), minus<3>(c[2], c[0])), minus<3>(c[3], c[0])) / 6;
}
// the outward normal of a face of the boundary, as long as the face is large. (Cells see their faces such that the
// right-hand normal points outwards in the plane and inwards in space.)
template <int D> static V<D> normal(const Facet<D> & f)
{
    if constexpr (D == 2) return { f[1][1] - f[0][1], f[0][0] - f[1][0] };
    else {
        auto n = cross(minus<3>(f[1], f[0]), minus<3>(f[2], f[0]));
        return { -n[0] / 2, -n[1] / 2, -n[2] / 2 };
    }
}
// the mean of a monomial of degree up to two over a simplex
template <size_t D, size_t n> static double mean(const std::array<std::array<double, D>, n> & c, const std::array<int, D> & e)
{
    std::vector<int> k;
    for (size_t d = 0; d < D; ++d)
        for (int i = 0; i < e[d]; ++i) k.push_back(d);
    auto sum = [&](int a) {
        double s = 0;
        for (auto & x : c) s += x[a];
        return s;
    };
    if (k.empty()) return 1;
    if (k.size() == 1) return sum(k[0]) / n;
    double s = sum(k[0]) * sum(k[1]);
    for (auto & x : c) s += x[k[0]] * x[k[1]];
    return s / (n * (n + 1));
}
template <int D> static std::vector<std::array<int, D>> exponents(int degree)
{
    std::vector<std::array<int, D>> r;
    std::function<void(std::array<int, D>, int, int)> go = [&](std::array<int, D> e, int d, int left) {
        if (d == D) return r.push_back(e);
        for (e[d] = 0; e[d] <= left; ++e[d]) {
            auto f = e;
            go(f, d + 1, left - e[d]);
        }
    };
    go({}, 0, degree);
    return r;
}
template <int D> struct Grid {
    std::vector<V<D>> points;
    std::vector<std::array<int, D + 1>> cells;
};
template <int D> struct World {
    using X = mg::cartesian::coordinates_t<D>;
    using O = std::conditional_t<D == 2, mg::polar::coordinates_t<2>, mg::spherical::coordinates_t<3>>;
    using cell_t = mg::geometric_simplex_t<D, D>;
    using facet_t = mg::geometric_simplex_t<D - 1, D>;
    using mesh_t = mito::mesh::mesh_t<cell_t>;
    using system_t = mg::coordinate_system_t<X>;

    std::unique_ptr<system_t> system = std::make_unique<system_t>();
    std::unique_ptr<mesh_t> mesh = std::make_unique<mesh_t>();
    // the sign of the measure of faces with the outward normal
    static constexpr double sign = D == 2 ? 1 : -1;
    // the cells it should have
    std::vector<Cell<D>> cells;
    // cells that touch share their nodes, so that faces between them are not on the boundary
    bool conforming = true;
    int refined = 0, grown = 0, total;
    double scale = 0;

    World(const Grid<D> & g, unsigned mask)
    {
        std::vector<mg::node_t<D>> nodes;
        auto points = g.points;
        for (auto & p : points)
            for (auto & x : p) x *= unit;
        for (auto & p : points) nodes.push_back(mg::node(*system, at(p)));
        for (size_t c = 0; c < g.cells.size(); ++c)
            if (mask >> c & 1) {
                Cell<D> m;
                for (int i = 0; i <= D; ++i) m[i] = points[g.cells[c][i]];
                cells.push_back(m);
                [&]<size_t... I>(std::index_sequence<I...>) { mesh->insert({ nodes[g.cells[c][I]]... }); }(std::make_index_sequence<D + 1> {});
            }
        total = cells.size();
        enabled();
    }
    static X at(const V<D> & p)
    {
        mito::tensor::vector_t<D> v;
        for (int d = 0; d < D; ++d) v[d] = p[d];
        return X(v);
    }
    template <class C> auto corners(const C & c) const
    {
        std::array<V<D>, C::n_vertices> r;
        int i = 0;
        for (auto & n : c.nodes()) {
            auto & x = system->coordinates(n->point());
            for (int d = 0; d < D; ++d) r[i][d] = x[d];
            ++i;
        }
        return r;
    }
    std::vector<Cell<D>> list(const mesh_t & m) const
    {
        std::vector<Cell<D>> r;
        for (auto & c : m.cells()) r.push_back(corners(c));
        return r;
    }
    static std::vector<Cell<D>> sorted(std::vector<Cell<D>> v)
    {
        std::sort(v.begin(), v.end());
        return v;
    }
    // of something that is measured in the unit of length to that power
    bool near(double a, double b, int power, double s = 1) const { return std::abs(a - b) <= 1e-10 * s * (1 + scale / unit) * std::pow(unit, power); }
    static double exact(const std::vector<Cell<D>> & cells, const std::array<int, D> & e)
    {
        double s = 0;
        for (auto & c : cells) s += volume<D>(c) * mean(c, e);
        return s;
    }
    static auto monomial(const std::array<int, D> & e)
    {
        return mf::function([e](const X & x) {
            double v = 1;
            for (int d = 0; d < D; ++d)
                for (int i = 0; i < e[d]; ++i) v *= x[d];
            return v;
        });
    }
    // the integrals over a mesh, and through its boundary
    void integrals(const mesh_t & m, const std::vector<Cell<D>> & want)
    {
        const auto manifold = mm::manifold(m, *system);
        mc::require(near(manifold.volume(), exact(want, {}), D), "volume", "the volume is %.15g instead of %.15g", manifold.volume(), exact(want, {}));
        const auto integrator = mq::integrator<mq::GAUSS, 2>(manifold);
        for (auto & e : exponents<D>(2)) {
            double got = integrator.integrate(monomial(e)), w = exact(want, e);
            mc::require(near(got, w, D + std::accumulate(e.begin(), e.end(), 0)), "integral", "the integral of a monomial of degree %d is %.15g instead of %.15g", std::accumulate(e.begin(), e.end(), 0), got, w);
        }
        mc::transition();
    }
    void divergence()
    {
        const auto manifold = mm::manifold(*mesh, *system);
        const auto integrator = mq::integrator<mq::GAUSS, 2>(manifold);
        const auto boundary = mito::mesh::boundary(*mesh);
        // every facet by itself, with its own normal
        std::vector<std::unique_ptr<mito::mesh::mesh_t<facet_t>>> faces;
        std::vector<V<D>> normals;
        double closed[D] = {};
        for (auto & f : boundary.cells()) {
            auto x = corners(f);
            auto n = normal<D>(x);
            double size = std::sqrt(dot<D>(n, n));
            for (int d = 0; d < D; ++d) closed[d] += n[d], n[d] /= size;
            faces.push_back(std::make_unique<mito::mesh::mesh_t<facet_t>>());
            faces.back()->insert(f.nodes());
            normals.push_back(n);
            mito::tensor::vector_t<D> u;
            for (int d = 0; d < D; ++d) u[d] = n[d];
            const auto part = mm::submanifold(*faces.back(), *system, mf::constant<X>(u));
            mc::require(near(part.volume(), sign * size, D - 1), "measure", "a face of size %.15g measures %.15g", size, part.volume());
        }
        for (int d = 0; d < D; ++d) mc::require(near(closed[d], 0, D - 1), "closed", "the boundary is not closed");
        if (conforming) {
            std::map<std::set<V<D>>, int> seen;
            for (auto & c : cells)
                for (int skip = 0; skip <= D; ++skip) {
                    std::set<V<D>> f;
                    for (int i = 0; i <= D; ++i)
                        if (i != skip) f.insert(c[i]);
                    ++seen[f];
                }
            int once = 0;
            for (auto & [f, k] : seen) once += k == 1;
            mc::require(boundary.nCells() == once && mito::mesh::boundary_size(*mesh) == once, "boundary", "the boundary has %d faces (%d) instead of %d", boundary.nCells(), mito::mesh::boundary_size(*mesh), once);
        }
        auto flux = [&](const auto & f) {
            double s = 0;
            for (size_t i = 0; i < faces.size(); ++i) {
                mito::tensor::vector_t<D> u;
                for (int d = 0; d < D; ++d) u[d] = normals[i][d];
                const auto n = mf::constant<X>(u);
                const auto part = mm::submanifold(*faces[i], *system, n);
                s += sign * mq::integrator<mq::GAUSS, 2>(part).integrate(f * n);
            }
            return s;
        };
        auto one = [&](const char * name, const auto & f, const std::array<int, D> & e, int k) {
            auto g = e;
            const int degree = std::accumulate(e.begin(), e.end(), 0);
            double want = g[k] ? g[k]-- * exact(cells, g) : 0;
            double inside = integrator.integrate(mito::fields::divergence(f)), outside = flux(f);
            mc::require(near(inside, want, D + degree - 1, 10), "divergence", "the integral of the divergence of %s e_%d is %.15g instead of %.15g", name, k, inside, want);
            mc::require(near(outside, want, D + degree - 1, 10), "flux", "the flux of %s e_%d is %.15g instead of %.15g", name, k, outside, want);
            mc::evaluation(true, mc::mix(mc::hash_str(mc::current), mc::hash_str(std::string(name) + char('0' + k))));
        };
        auto along = [&]<int k>(std::integral_constant<int, k>) {
            const auto e = mf::constant<X>(mito::tensor::e<k, D>);
            const auto x = mg::cartesian::x_0<D>;
            const auto y = mf::component<X, 1>;
            const auto z = mf::component<X, D - 1>;
            std::array<int, D> n {}, a;
            one("x", x * e, (a = n, ++a[0], a), k);
            one("y", y * e, (a = n, ++a[1], a), k);
            one("x x", x * x * e, (a = n, a[0] = 2, a), k);
            one("x y", x * y * e, (a = n, ++a[0], ++a[1], a), k);
            one("z z", mf::pow<2>(z) * e, (a = n, a[D - 1] = 2, a), k);
            one("y z", y * z * e, (a = n, ++a[1], ++a[D - 1], a), k);
        };
        along(std::integral_constant<int, 0> {});
        along(std::integral_constant<int, 1> {});
        if constexpr (D == 3) along(std::integral_constant<int, 2> {});
    }

    // ---------------------------------------------------------------- operations
    enum What { ERASE_FIRST, ERASE_LAST, REFINE, PART_OF_2, PART_OF_3, READ, READ_DG, CONVERT, GROW };
    std::vector<std::pair<What, int>> ops;
    int enabled()
    {
        ops.clear();
        int n = cells.size();
        if (n > 1) ops.push_back({ ERASE_FIRST, 0 }), ops.push_back({ ERASE_LAST, 0 });
        if (n * (1 << D) <= (D == 2 ? 64 : 48)) ops.push_back({ REFINE, 0 });
        // (too few cells per part, and Metis may leave a part empty)
        if (n >= 2)
            for (int r = 0; r < 2; ++r) ops.push_back({ PART_OF_2, r });
        if (n >= 6) ops.push_back({ PART_OF_3, 1 });
        ops.push_back({ READ, 0 });
        ops.push_back({ READ_DG, 0 });
        ops.push_back({ CONVERT, 0 });
        if (grown < 2 && n) ops.push_back({ GROW, 0 });
        return n ? ops.size() : 0;
    }
    std::string name(int i)
    {
        static const char * names[] = { "erase the first cell", "erase the last cell", "refine", "part %d of 2", "part %d of 3", "write and read", "write and read discontinuous", "other coordinates and back", "grow" };
        return mc::fmt(names[ops[i].first], ops[i].second);
    }
    void apply(int i)
    {
        auto [what, arg] = ops[i];
        switch (what) {
            case ERASE_FIRST:
            case ERASE_LAST: {
                cell_t * doomed = nullptr;
                for (auto & c : mesh->cells()) {
                    doomed = &c;
                    if (what == ERASE_FIRST) break;
                }
                auto gone = corners(*doomed);
                mesh->erase(*doomed);
                auto it = std::find(cells.begin(), cells.end(), gone);
                mc::require(it != cells.end(), "cells", "the mesh has a cell it should not have");
                cells.erase(it);
                break;
            }
            case REFINE: {
                auto fine = std::make_unique<mesh_t>(mito::mesh::tetra(*mesh, *system));
                mc::require(fine->nCells() == (int) cells.size() << D, "refine", "%zu cells are refined into %d", cells.size(), fine->nCells());
                integrals(*fine, cells);
                mc::require(sorted(list(*mesh)) == sorted(cells), "original", "refining changed the mesh");
                mesh = std::move(fine);
                cells = list(*mesh);
                ++refined;
                break;
            }
            case PART_OF_2:
            case PART_OF_3: {
                int parts = what == PART_OF_2 ? 2 : 3;
                std::vector<Cell<D>> all, chosen;
                std::unique_ptr<mesh_t> kept;
                for (int r = 0; r < parts; ++r) {
                    auto part = std::make_unique<mesh_t>(mito::mesh::metis::partition(*mesh, parts, r));
                    auto own = list(*part);
                    integrals(*part, own);
                    all.insert(all.end(), own.begin(), own.end());
                    if (r == arg) kept = std::move(part), chosen = own;
                }
                auto before = cells;
                std::sort(all.begin(), all.end()), std::sort(before.begin(), before.end());
                mc::require(all == before, "partition", "the parts are not the mesh");
                mc::require(sorted(list(*mesh)) == sorted(cells), "original", "partitioning changed the mesh");
                mesh = std::move(kept);
                cells = chosen;
                break;
            }
            case READ:
            case READ_DG: {
                mito::io::summit::writer(base, *mesh, *system);
                std::ifstream in(base + ".summit");
                auto fresh = std::make_unique<system_t>();
                mesh = std::make_unique<mesh_t>(what == READ ? mito::io::summit::reader<cell_t, mito::io::summit::CG>(in, *fresh) : mito::io::summit::reader<cell_t, mito::io::summit::DG>(in, *fresh));
                system = std::move(fresh);
                resync();
                apart = what == READ_DG;
                break;
            }
            case CONVERT: {
                auto other = std::make_unique<mg::coordinate_system_t<O>>(*system);
                system = std::make_unique<system_t>(*other);
                resync();
                break;
            }
            case GROW: {
                auto boundary = mito::mesh::boundary(*mesh);
                auto & f = *boundary.cells().begin();
                auto x = corners(f);
                auto n = normal<D>(x);
                V<D> apex {};
                for (int d = 0; d < D; ++d) {
                    for (auto & p : x) apex[d] += p[d] / D;
                    // (of another shape the second time, or it may fill in exactly what was erased of the first)
                    apex[d] += n[d] / (D == 2 ? 1 : unit) * (grown ? 0.61 + 0.13 * d : 0.75 + 0.1 * d);
                }
                auto top = mg::node(*system, at(apex));
                auto nodes = f.nodes();
                // on the other side of the face
                Cell<D> c;
                for (int i = 0; i < D; ++i) c[i] = x[i];
                c[D] = apex;
                std::array<int, D> order;
                std::iota(order.begin(), order.end(), 0);
                if (volume<D>(c) < 0) std::swap(c[0], c[1]), std::swap(order[0], order[1]);
                [&]<size_t... I>(std::index_sequence<I...>) { mesh->insert({ nodes[order[I]]..., top }); }(std::make_index_sequence<D> {});
                cells.push_back(c);
                ++grown;
                break;
            }
        }
        if (what == REFINE && apart) conforming = false;
        enabled();
    }
    // cells may have nodes of their own
    bool apart = false;
    // the cells as they are now, which are close to what they were
    void resync()
    {
        auto now = list(*mesh);
        mc::require(now.size() == cells.size(), "cells", "%zu cells instead of %zu", now.size(), cells.size());
        std::vector<bool> taken(cells.size());
        for (auto & c : now) {
            bool found = false;
            for (size_t k = 0; k < cells.size() && !found; ++k) {
                if (taken[k]) continue;
                bool same = true;
                for (int i = 0; i <= D && same; ++i)
                    for (int d = 0; d < D && same; ++d) same = std::abs(c[i][d] - cells[k][i][d]) < 1e-12 * (unit + scale);
                if (same) taken[k] = found = true;
            }
            mc::require(found, "cells", "a cell was not there before");
        }
        cells = now;
    }
    void check()
    {
        scale = 0;
        for (auto & c : cells)
            for (auto & p : c)
                for (double x : p) scale = std::max(scale, std::abs(x));
        if (cells.empty()) return;
        mc::require(mesh->nCells() == (int) cells.size(), "cells", "%d cells instead of %zu", mesh->nCells(), cells.size());
        integrals(*mesh, cells);
        divergence();
    }
    void finish() {}
    uint64_t hash()
    {
        uint64_t h = conforming;
        for (auto & c : cells)
            for (auto & p : c)
                for (double x : p) h = mc::mix(h, (uint64_t) std::llround(x / unit * 1e9));
        return h;
    }
};

int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C30");
    journal::info_t("mito.summit.mesh_reader").active(false);
    char cwd[] = "pipelines_XXXXXX";
    if (!mkdtemp(cwd)) return 2;
    base = std::string(cwd) + "/mesh";
    // a grid of 2 by 1 squares, of different shapes, away from the origin
    Grid<2> plane;
    for (int j = 0; j < 2; ++j)
        for (int i = 0; i < 3; ++i) plane.points.push_back({ 1 + i + 0.25 * j, 0.5 + j + 0.125 * i * i });
    plane.points.push_back({ 1.5, 2.5 });
    plane.cells = { { 0, 1, 4 }, { 0, 4, 3 }, { 2, 5, 1 }, { 4, 1, 5 }, { 6, 3, 4 } };
    // a cube of six tetrahedra around a diagonal
    Grid<3> space;
    for (int k = 0; k < 2; ++k)
        for (int j = 0; j < 2; ++j)
            for (int i = 0; i < 2; ++i) space.points.push_back({ 1 + i + 0.125 * j * k, 0.75 + j + 0.25 * i, 0.5 + k - 0.125 * i * j });
    int axes[3] = { 1, 2, 4 };
    std::sort(axes, axes + 3);
    do {
        std::array<int, 4> c { 0, axes[0], axes[0] + axes[1], 7 };
        Cell<3> x;
        for (int i = 0; i < 4; ++i) x[i] = space.points[c[i]];
        if (volume<3>(x) < 0) std::swap(c[1], c[2]);
        space.cells.push_back(c);
    } while (std::next_permutation(axes, axes + 3));
    for (unsigned mask = 1; mask < 1u << plane.cells.size(); ++mask)
        mc::explore(mc::fmt("triangles %#x", mask), mask == (1u << plane.cells.size()) - 1 ? mc::pick(5, 6) : mc::pick(3, 4), [&] { return World<2>(plane, mask); });
    for (unsigned mask = 1; mask < 1u << space.cells.size(); ++mask) {
        mc::explore(mc::fmt("tetrahedra %#x", mask), mask == (1u << space.cells.size()) - 1 ? mc::pick(3, 4) : mc::pick(2, 3), [&] { return World<3>(space, mask); });
    }
    // small and large
    for (double u : { 0x1p-30, 0x1p30 }) {
        unit = u;
        for (unsigned mask : { 3u, 31u }) mc::explore(mc::fmt("triangles %#x in units of %g", mask, u), mc::pick(3, 4), [&] { return World<2>(plane, mask); });
        for (unsigned mask : { 1u, 63u }) mc::explore(mc::fmt("tetrahedra %#x in units of %g", mask, u), mc::pick(2, 3), [&] { return World<3>(space, mask); });
    }
    unit = 1;
    // around the origin, and in the other quadrants and octants
    for (auto shift : std::vector<V<3>> { { -2.125, -1.4375, -0.875 }, { -4.5, 0.25, -2.75 }, { 0.375, -4.25, 0.5 }, { -5.25, -4.5, 0.25 } }) {
        auto p = plane;
        for (auto & x : p.points)
            for (int d = 0; d < 2; ++d) x[d] += shift[d];
        auto s = space;
        for (auto & x : s.points)
            for (int d = 0; d < 3; ++d) x[d] += shift[d];
        for (unsigned mask : { 3u, 31u }) mc::explore(mc::fmt("triangles %#x shifted by %g %g", mask, shift[0], shift[1]), mc::pick(3, 4), [&] { return World<2>(p, mask); });
        for (unsigned mask : { 1u, 63u }) mc::explore(mc::fmt("tetrahedra %#x shifted by %g %g %g", mask, shift[0], shift[1], shift[2]), mc::pick(2, 3), [&] { return World<3>(s, mask); });
    }
    int rc = mc::finish();
    std::filesystem::remove_all(cwd);
    return rc;
}
