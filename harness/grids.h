// Small meshes for the checks of function spaces and discrete systems.
#pragma once
#include "fem.h"
#include <numeric>
#include "big.h"
using Cell = std::vector<int>;
struct Grid {
    std::vector<Point> points;
    std::vector<Cell> cells;    // positively oriented
};
// in one dimension: not in order along the line, and with a gap; in two: a distorted grid, two triangles of which share
// an edge, a corner, or nothing
static const Grid LINE { { { 0, 0 }, { 1, 0 }, { 1.5, 0 }, { 3, 0 }, { -1, 0 }, { 3.25, 0 }, { 5, 0 } }, { { 1, 2 }, { 0, 1 }, { 2, 3 }, { 4, 0 }, { 5, 6 } } };
static const Grid SQUARE { { { 0, 0 }, { 1, 0.25 }, { 2, 0 }, { 0.125, 1 }, { 1, 1.25 }, { 2.25, 1 }, { 0, 2.5 }, { 1.25, 2 }, { 2, 2 } },
                           { { 0, 1, 4 }, { 4, 3, 0 }, { 1, 2, 5 }, { 5, 4, 1 }, { 3, 4, 7 }, { 7, 6, 3 }, { 8, 4, 5 }, { 4, 8, 7 } } };
// many cells, the points shifted a little, in strides
template <int N> static Grid many_cells(int n, int stride)
{
    big::Block<N> block(n);
    Grid g;
    for (auto & p : block.points) g.points.push_back({ p[0] + 0.125 * ((int) (p[0] * 3 + p[1] * 5) % 4), N == 1 ? 0 : p[1] - 0.0625 * ((int) (p[0] + p[1] * 2) % 5) });
    for (int r = 0; r < stride; ++r)
        for (size_t i = r; i < block.cells.size(); i += stride) g.cells.push_back({ block.cells[i].begin(), block.cells[i].end() });
    return g;
}
// the same with the nodes in another order, and each cell beginning at another of its corners (a segment does not)
static Grid turned(const Grid & g)
{
    int n = (int) g.points.size();
    std::vector<int> order(n), now(n);
    std::iota(order.begin(), order.end(), 0);
    std::sort(order.begin(), order.end(), [](int a, int b) { return mc::mix(1, a) < mc::mix(1, b); });
    Grid t;
    for (int i = 0; i < n; ++i) t.points.push_back(g.points[order[i]]), now[order[i]] = i;
    for (auto & c : g.cells) {
        Cell d;
        for (int i : c) d.push_back(now[i]);
        if (d.size() > 2) std::rotate(d.begin(), d.begin() + mc::mix(2, t.cells.size()) % d.size(), d.end());
        t.cells.push_back(d);
    }
    return t;
}
// the same at another place
static Grid shifted(Grid g, const Point & by)
{
    for (auto & p : g.points) p = { p[0] + by[0], p[1] + by[1] };
    return g;
}
// the same in another unit of length
static double unit = 1;
static Grid scaled(Grid g)
{
    for (auto & p : g.points)
        for (auto & x : p) x *= unit;
    return g;
}
using Edge = std::array<int, 2>;
static Edge edge(int a, int b) { return { std::min(a, b), std::max(a, b) }; }

template <class K> struct World {
    static constexpr int N = K::dim;
    const Grid & grid;
    typename K::system_t system;
    std::vector<typename K::node_t> nodes;
    typename K::mesh_t mesh;
    std::vector<Cell> cells;
    World(const Grid & g, const std::vector<Cell> & list) : grid(g), cells(list)
    {
        for (auto & p : g.points) nodes.push_back(mg::node(system, at<K>(p)));
        for (auto & c : cells) {
            if constexpr (N == 1) mesh.insert({ nodes[c[0]], nodes[c[1]] });
            else mesh.insert({ nodes[c[0]], nodes[c[1]], nodes[c[2]] });
        }
    }
    int index(const typename K::node_t & n) const
    {
        for (size_t i = 0; i < nodes.size(); ++i)
            if (nodes[i] == n) return (int) i;
        mc::fail("nodes", "a node of another mesh");
    }
    Corners corners(const Cell & c) const
    {
        Corners r;
        for (int i : c) r.push_back(grid.points[i]);
        return r;
    }
    // the place of local dof a of the cell: the corners it lies between
    static Edge place(const Cell & c, int a)
    {
        if (a <= N) return { c[a], c[a] };
        return edge(c[a - N - 1], c[(a - N) % 3]);
    }
    // the elements, in the order of our list of cells: one for each
    template <class Space> std::vector<const typename K::element_t *> elements(const Space & fs) const
    {
        std::vector<const typename K::element_t *> r(cells.size(), nullptr);
        size_t count = 0;
        for (const auto & e : fs.elements()) {
            ++count;
            auto it = cells.begin() + number(e);
            mc::require(!r[it - cells.begin()], "elements", "two elements on one cell");
            r[it - cells.begin()] = &e;
        }
        mc::require(count == cells.size() && (size_t) fs.elements().size() == count, "elements", "%zu elements on %zu cells", count, cells.size());
        return r;
    }
    // the number of the cell of an element
    int number(const typename K::element_t & e) const
    {
        Cell c;
        for (auto & node : e.cell().nodes()) c.push_back(index(node));
        auto it = std::find(cells.begin(), cells.end(), c);
        mc::require(it != cells.end(), "elements", "an element on another cell");
        return (int) (it - cells.begin());
    }
    Point at_place(const Edge & e) const { return { (grid.points[e[0]][0] + grid.points[e[1]][0]) / 2, (grid.points[e[0]][1] + grid.points[e[1]][1]) / 2 }; }
};
// the sides of the cells: in one dimension, the nodes; otherwise those of one cell, or all
template <class K> static std::vector<Edge> sides(const std::vector<Cell> & cells, bool all)
{
    std::vector<Edge> r;
    std::map<Edge, int> uses;
    for (auto & c : cells) {
        if (K::dim == 1) ++uses[{ c[0], c[0] }], ++uses[{ c[1], c[1] }];
        else
            for (int a = 0; a < 3; ++a) ++uses[edge(c[a], c[(a + 1) % 3])];
    }
    for (auto & [e, k] : uses)
        if (K::dim == 1 || k == 1 || all) r.push_back(e);
    return r;
}
// a set of sides is told by a bit of each, over and over if there are more than 64
static uint64_t whole(const std::vector<Edge> & sides) { return sides.size() < 64 ? (1ull << sides.size()) - 1 : ~0ull; }
// the places on some of the sides
template <class K> static std::set<Edge> places_on(const std::vector<Edge> & sides, uint64_t mask)
{
    std::set<Edge> r;
    for (size_t i = 0; i < sides.size(); ++i)
        if (mask >> i % 64 & 1) {
            auto [a, b] = sides[i];
            r.insert({ a, a });
            r.insert({ b, b });
            if (K::degree == 2) r.insert({ a, b });
        }
    return r;
}
// the domain of the constraints on some of the sides: a set of nodes, or a mesh of segments
template <class K> static auto domain(const World<K> & w, const std::vector<Edge> & sides, uint64_t mask)
{
    if constexpr (K::dim == 1) {
        std::set<typename K::node_t> r;
        for (auto & e : places_on<K>(sides, mask)) r.insert(w.nodes[e[0]]);
        return r;
    } else {
        mito::mesh::mesh_t<mg::segment_t<2>> r;
        for (size_t i = 0; i < sides.size(); ++i)
            if (mask >> i % 64 & 1) {
                auto [a, b] = sides[i];
                if ((i + w.cells[0][0]) % 2) std::swap(a, b);
                r.insert({ w.nodes[a], w.nodes[b] });
            }
        return r;
    }
}
static std::string str(const std::vector<Cell> & cells)
{
    if (cells.size() > 20) return mc::fmt(" %zu", cells.size());
    std::string s;
    for (auto & c : cells) {
        s += ' ';
        for (int i : c) s += std::to_string(i);
    }
    return s;
}
// dense matrices
using Matrix = std::vector<std::vector<double>>;
static bool solve(Matrix A, std::vector<double> b, std::vector<double> & x)
{
    int n = (int) b.size();
    double largest = 0;
    for (auto & r : A)
        for (double x : r) largest = std::max(largest, std::abs(x));
    for (int i = 0; i < n; ++i) {
        int p = i;
        for (int k = i; k < n; ++k)
            if (std::abs(A[k][i]) > std::abs(A[p][i])) p = k;
        if (std::abs(A[p][i]) <= 1e-12 * largest) return false;
        std::swap(A[i], A[p]), std::swap(b[i], b[p]);
        for (int k = i + 1; k < n; ++k) {
            double f = A[k][i] / A[i][i];
            for (int j = i; j < n; ++j) A[k][j] -= f * A[i][j];
            b[k] -= f * b[i];
        }
    }
    x.assign(n, 0);
    for (int i = n - 1; i >= 0; --i) {
        x[i] = b[i];
        for (int j = i + 1; j < n; ++j) x[i] -= A[i][j] * x[j];
        x[i] /= A[i][i];
    }
    return true;
}
