// C15: refining a mesh. Integer coordinates (multiples of 2^n), so that every midpoint, and every
// quantity compared here, is exact.
#include "mc.h"
#include "big.h"
#include <mito/mesh.h>
namespace mg = mito::geometry;
using V3 = std::array<long, 3>;
static V3 operator-(V3 a, V3 b) { return { a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
static V3 cross(V3 a, V3 b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
static long dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
using Cell = std::vector<V3>;    // its corners
// the direction and size of a cell (exact, times N!)
static V3 extent(const Cell & c)
{
    if (c.size() == 2) return c[1] - c[0];
    if (c.size() == 3) return cross(c[1] - c[0], c[2] - c[0]);
    return { dot(c[1] - c[0], cross(c[2] - c[0], c[3] - c[0])), 0, 0 };
}
// facets of a cell, oriented outwards (sorted corners and the sign of their order)
struct Facet {
    Cell c;
    int sign;
    auto operator<=>(const Facet &) const = default;
};
static Facet facet(Cell c, int sign)
{
    for (size_t i = 0; i < c.size(); ++i)
        for (size_t j = i + 1; j < c.size(); ++j)
            if (c[j] < c[i]) std::swap(c[i], c[j]), sign = -sign;
    return { c, sign };
}
static std::vector<Facet> facets(const Cell & c)
{
    std::vector<Facet> r;
    for (size_t k = 0; k < c.size(); ++k) {
        Cell f;
        for (size_t i = 0; i < c.size(); ++i)
            if (i != k) f.push_back(c[i]);
        r.push_back(facet(f, k % 2 ? -1 : 1));
    }
    return r;
}
static std::map<Cell, int> boundary(const std::vector<Cell> & cells)
{
    std::map<Cell, int> r;
    for (auto & c : cells)
        for (auto & f : facets(c))
            if ((r[f.c] += f.sign) == 0) r.erase(f.c);
    return r;
}
// is point {p} in the closed cell {c}? (exact)
static bool inside(const V3 & p, const Cell & c)
{
    if (c.size() == 1) return p == c[0];
    V3 e = extent(c);
    if (c.size() == 2) {
        V3 d = p - c[0];
        V3 x = cross(d, e);
        long t = dot(d, e);
        return x == V3 { 0, 0, 0 } && t >= 0 && t <= dot(e, e);
    }
    if (c.size() == 3) {
        if (dot(p - c[0], e) != 0) return false;
        for (int i = 0; i < 3; ++i)
            if (dot(cross(c[(i + 1) % 3] - c[i], p - c[i]), e) < 0) return false;
        return true;
    }
    for (int i = 0; i < 4; ++i) {
        Cell d = c;
        d[i] = p;
        if (extent(d)[0] * (e[0] > 0 ? 1 : -1) < 0) return false;
    }
    return true;
}

// the unit of length: a power of two, so that every midpoint still is exact
static double unit = 1;
template <int N, int D>
static void refine(const std::vector<std::array<long, 3>> & points, const std::vector<std::array<int, N + 1>> & parents, int n, int erase = -1)
{
    using cell_t = mg::geometric_simplex_t<N, D>;
    using coord_t = mg::cartesian::coordinates_t<D>;
    mg::coordinate_system_t<coord_t> system;
    long scale = 1l << n;
    std::vector<mg::node_t<D>> nodes;
    for (auto & p : points) {
        if constexpr (D == 1) nodes.push_back(mg::node(system, coord_t({ unit * double(p[0] * scale) })));
        if constexpr (D == 2) nodes.push_back(mg::node(system, coord_t({ unit * double(p[0] * scale), unit * double(p[1] * scale) })));
        if constexpr (D == 3) nodes.push_back(mg::node(system, coord_t({ unit * double(p[0] * scale), unit * double(p[1] * scale), unit * double(p[2] * scale) })));
    }
    auto at = [&](auto & node) {
        auto c = system.coordinates(node->point());
        V3 v { 0, 0, 0 };
        for (int i = 0; i < D; ++i) {
            v[i] = std::lround(c[i] / unit);
            mc::require(unit * double(v[i]) == double(c[i]), "midpoint", "a node of the refined mesh is not at a midpoint (%.17g)", double(c[i]));
        }
        return v;
    };
    auto corners = [&](const cell_t & c) {
        Cell r;
        for (auto & x : c.nodes()) r.push_back(at(x));
        return r;
    };
    auto mesh = mito::mesh::mesh<cell_t>();
    std::vector<Cell> coarse;
    for (size_t k = 0; k < parents.size(); ++k) {
        auto & cell = [&]<size_t... J>(std::index_sequence<J...>) -> cell_t & {
            return mesh.insert({ nodes[parents[k][J]]... });
        }(std::make_index_sequence<N + 1> {});
        if ((int) k == erase) mesh.erase(cell);
        else coarse.push_back(corners(cell));
    }
    auto refined = (n == 1) ? mito::mesh::tetra(mesh, system) : mito::mesh::tetra(mesh, system, n);
    long per = 1l << (N * n);
    std::vector<Cell> fine;
    std::set<const void *> original_points;
    int corners_kept = 0;
    for (auto & c : refined.cells()) fine.push_back(corners(c));
    mc::transition(fine.size());
    mc::require((long) fine.size() == (long) coarse.size() * per && refined.nCells() == (int) fine.size(), "count",
                "%zu cells, %ld expected", fine.size(), (long) coarse.size() * per);
    // each child has its share of one parent, with the orientation of the parent
    std::vector<long> children(coarse.size());
    for (auto & c : fine) {
        int home = -1;
        for (size_t k = 0; k < coarse.size() && home < 0; ++k) {
            bool all = true;
            for (auto & p : c) all = all && inside(p, coarse[k]);
            if (all) {
                V3 e = extent(c), E = extent(coarse[k]);
                long share = per / 1;
                mc::require(e[0] * share == E[0] && e[1] * share == E[1] && e[2] * share == E[2], "share",
                            "a cell of the refined mesh has size (%ld %ld %ld), its parent (%ld %ld %ld), with %ld children",
                            e[0], e[1], e[2], E[0], E[1], E[2], share);
                home = k;
            }
        }
        mc::require(home >= 0, "outside", "a cell of the refined mesh is not inside a cell of the mesh");
        ++children[home];
    }
    for (size_t k = 0; k < coarse.size(); ++k)
        mc::require(children[k] == per, "children", "cell %zu has %ld children", k, children[k]);
    // the boundary of the refined mesh is that of the mesh, refined: the rest cancels out, so that
    // the cells neither overlap nor leave gaps
    auto B = boundary(coarse), b = boundary(fine);
    std::map<Cell, long> count;
    for (auto & [f, s] : b) {
        mc::require(std::abs(s) == 1, "overlap", "cells overlap");
        bool found = false;
        for (auto & [F, S] : B) {
            bool all = true;
            for (auto & p : f) all = all && inside(p, F);
            if (!all) continue;
            // same side?
            long sign = N == 1 ? 1 : dot(extent(f), extent(F));
            if ((sign > 0) == (s == S)) {
                ++count[F];
                found = true;
                break;
            }
        }
        mc::require(found, "gap", "a face of the refined mesh is not matched by a neighbour");
    }
    long per_face = 1l << ((N - 1) * n);
    for (auto & [F, S] : B) mc::require(count[F] == per_face, "boundary", "a boundary face is covered by %ld faces, not %ld", count[F], per_face);
    // the nodes of the mesh are those of the refined mesh
    std::set<mito::topology::vertex_t> vertices;
    for (auto & c : refined.cells())
        for (auto & x : c.nodes()) vertices.insert(x->vertex());
    for (auto & c : mesh.cells())
        for (auto & x : c.nodes()) mc::require(vertices.count(x->vertex()), "corner", "a node of the mesh is not a node of the refined mesh");
    // and the mesh is as it was
    mc::require(mesh.nCells() == (int) coarse.size(), "original", "the mesh was modified");
    size_t i = 0;
    for (auto & c : mesh.cells()) mc::require(corners(c) == coarse[i++], "original", "the cells of the mesh were modified");
    mc::state(mc::hash_str(mc::current));
    mc::trace();
    // neighbours share the nodes that they have in common
    mc::require(mito::mesh::boundary_size(refined) == (long) B.size() * per_face, "disconnected",
                "the boundary of the refined mesh has %d cells instead of %ld: neighbouring cells do not share their midpoints",
                mito::mesh::boundary_size(refined), (long) B.size() * per_face);
}
template <int N>
static std::string str(const std::array<int, N> & p)
{
    std::string r;
    for (int i : p) r += std::to_string(i);
    return r;
}
template <int N, int D>
static void orders(int shape, const std::vector<std::array<long, 3>> & points, int max)
{
    std::array<int, N + 1> p;
    for (int i = 0; i <= N; ++i) p[i] = i;
    do
        for (int n = 0; n <= max; ++n)
            mc::for_case(mc::fmt("one cell N=%d D=%d shape %d order %s refinements %d", N, D, shape, str<N + 1>(p).c_str(), n) + (unit == 1 ? "" : mc::fmt(" in units of %g", unit)),
                         [&] { refine<N, D>(points, { p }, n); });
    while (std::next_permutation(p.begin(), p.end()));
}
static int sign(auto p)
{
    int s = 1;
    for (size_t i = 0; i < p.size(); ++i)
        for (size_t j = i + 1; j < p.size(); ++j)
            if (p[i] > p[j]) s = -s;
    return s;
}
// meshes of hundreds of cells
template <int N>
static void many(int n, int max)
{
    big::Block<N> block(n);
    std::vector<std::array<long, 3>> points;
    for (auto & p : block.points) points.push_back({ (long) p[0] * 3 + (long) p[1], (long) p[1] * 2, (long) p[2] * 3 - (long) p[0] });
    if (N == 1)
        for (auto & p : points) p[1] = p[2] = 0;
    for (int stride : { 1, 7 })
        for (int k = 0; k <= max; ++k)
            mc::for_case(mc::fmt("%d cells along each side in %d dimensions, by strides of %d, refinements %d", n, N, stride, k), [&] {
                std::vector<big::Cell<N>> parents;
                for (int r = 0; r < stride; ++r)
                    for (size_t i = r; i < block.cells.size(); i += stride) parents.push_back(block.cells[i]);
                refine<N, N>(points, parents, k);
            });
}
int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C15");
    orders<1, 1>(0, { { 0, 0, 0 }, { 3, 0, 0 } }, mc::pick(9, 12));
    orders<1, 2>(0, { { -1, 2, 0 }, { 3, 1, 0 } }, mc::pick(8, 10));
    orders<1, 3>(0, { { 1, 1, 1 }, { 0, -2, 5 } }, mc::pick(8, 10));
    orders<2, 2>(0, { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 } }, mc::pick(5, 6));
    orders<2, 2>(1, { { -3, 1, 0 }, { 2, 0, 0 }, { 1, 5, 0 } }, mc::pick(4, 6));
    orders<2, 3>(0, { { 0, 0, 1 }, { 1, 2, 0 }, { -1, 1, 1 } }, mc::pick(4, 6));
    orders<3, 3>(0, { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } }, mc::pick(3, 5));
    orders<3, 3>(1, { { -1, 0, 2 }, { 3, 1, 0 }, { 0, 4, 1 }, { 1, 1, 7 } }, mc::pick(3, 4));
    for (double u : { std::ldexp(1, -40), std::ldexp(1, 40) }) {
        unit = u;
        orders<1, 1>(0, { { 0, 0, 0 }, { 3, 0, 0 } }, 4);
        orders<1, 3>(0, { { 1, 1, 1 }, { 0, -2, 5 } }, 4);
        orders<2, 2>(1, { { -3, 1, 0 }, { 2, 0, 0 }, { 1, 5, 0 } }, 3);
        orders<2, 3>(0, { { 0, 0, 1 }, { 1, 2, 0 }, { -1, 1, 1 } }, 3);
        orders<3, 3>(1, { { -1, 0, 2 }, { 3, 1, 0 }, { 0, 4, 1 }, { 1, 1, 7 } }, 2);
    }
    unit = 1;
    // two neighbours, in every order of their nodes, on the same side
    {
        std::array<int, 3> p { 0, 1, 2 }, q;
        do {
            q = { 1, 3, 2 };
            std::array<int, 3> idx { 0, 1, 2 }, base = q;
            do {
                for (int i = 0; i < 3; ++i) q[i] = base[idx[i]];
                if (sign(p) != sign(idx)) continue;
                for (int n = 0; n <= mc::pick(3, 5); ++n)
                    for (int e = -1; e < 2; ++e)
                        mc::for_case(mc::fmt("two triangles %s %s refinements %d%s", str<3>(p).c_str(), str<3>(q).c_str(), n, e < 0 ? "" : e ? " second erased" : " first erased"), [&] {
                            refine<2, 2>({ { 0, 0, 0 }, { 2, 0, 0 }, { 0, 2, 0 }, { 3, 3, 0 } }, { p, q }, n, e);
                        });
            } while (std::next_permutation(idx.begin(), idx.end()));
        } while (std::next_permutation(p.begin(), p.end()));
    }
    {
        std::array<int, 4> p { 0, 1, 2, 3 }, q;
        do {
            std::array<int, 4> idx { 0, 1, 2, 3 }, base { 1, 2, 3, 4 };
            do {
                for (int i = 0; i < 4; ++i) q[i] = base[idx[i]];
                if (sign(p) != sign(idx)) continue;
                for (int n = 1; n <= mc::pick(2, 3); ++n)
                    mc::for_case(mc::fmt("two tetrahedra %s %s refinements %d", str<4>(p).c_str(), str<4>(q).c_str(), n), [&] {
                        refine<3, 3>({ { 0, 0, 0 }, { 2, 0, 0 }, { 0, 2, 0 }, { 0, 0, 2 }, { 3, 3, 3 } }, { p, q }, n);
                    });
            } while (std::next_permutation(idx.begin(), idx.end()));
        } while (std::next_permutation(p.begin(), p.end()));
    }
    many<1>(300, mc::pick(2, 4));
    many<2>(12, mc::pick(2, 3));
    many<3>(4, mc::pick(1, 2));
    return mc::finish();
}
