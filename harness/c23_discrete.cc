// C23: discrete fields. Every history of insertions, writes and reads; fields over every mesh in small grids.
#include "mc.h"
#include "big.h"
#include <mito/geometry.h>
#include <mito/mesh.h>
#include <mito/fields.h>
#include <mito/discrete.h>
namespace mg = mito::geometry;
namespace md = mito::discrete;
namespace mf = mito::functions;
namespace mt = mito::tensor;
using V = std::array<double, 3>;
template <int D> using C = mg::cartesian::coordinates_t<D>;
using P = mg::polar::coordinates_t<2>;
using S = mg::spherical::coordinates_t<3>;

// the values of a field, numbered
template <class Y> struct Value;
template <> struct Value<double> {
    static double make(int i) { return i * 0.5; }
    static int read(double y) { return (int) std::lround(y * 2); }
};
template <> struct Value<int> {
    static int make(int i) { return 7 * i; }
    static int read(int y) { return y / 7; }
};
template <int D> struct Value<mt::vector_t<D>> {
    static mt::vector_t<D> make(int i)
    {
        mt::vector_t<D> y;
        for (int d = 0; d < D; ++d) y[d] = i * (d + 1);
        return y;
    }
    static int read(const mt::vector_t<D> & y)
    {
        for (int d = 1; d < D; ++d)
            if (y[d] != y[0] * (d + 1)) return -1;
        return (int) y[0];
    }
};
template <class Y, size_t Q> struct Value<std::array<Y, Q>> {
    static std::array<Y, Q> make(int i)
    {
        std::array<Y, Q> y;
        for (size_t q = 0; q < Q; ++q) y[q] = Value<Y>::make(i * (q + 1));
        return y;
    }
    static int read(const std::array<Y, Q> & y)
    {
        int i = Value<Y>::read(y[0]);
        for (size_t q = 1; q < Q; ++q)
            if (Value<Y>::read(y[q]) != i * (int) (q + 1)) return -1;
        return i;
    }
};
template <> struct Value<std::string> {
    static std::string make(int i) { return i ? std::to_string(i) : ""; }
    static int read(const std::string & s) { return s.empty() ? 0 : std::stoi(s); }
};

// histories over a few keys
template <class K, class Y> struct Histories {
    using field_t = md::DiscreteField<K, Y>;
    std::vector<K> keys;
    std::vector<K> other;    // further handles of the same keys
    std::unique_ptr<field_t> field;
    std::vector<Y *> address;
    std::map<int, int> model;
    std::string title;
    int n, step = 0;

    Histories(std::vector<K> k, int from) : keys(k), other(k), address(k.size(), nullptr), title("field " + std::to_string(from)), n((int) k.size())
    {
        if (from == 0) field = std::make_unique<field_t>(title);
        else {
            std::vector<K> some(keys.begin(), keys.begin() + from);
            field = std::make_unique<field_t>(some, title);
            for (int i = 0; i < from; ++i) model[i] = Value<Y>::read(Value<Y>::make(0));
        }
    }
    // insert key i (default or value), write, write through iteration, move, shadow copy of a value
    std::vector<int> menu()
    {
        std::vector<int> m;
        for (int i = 0; i < n; ++i) {
            if (!model.count(i)) m.push_back(i), m.push_back(n + i);
            else {
                m.push_back(2 * n + i);
                if (address[i]) m.push_back(3 * n + i);
            }
        }
        m.push_back(4 * n);
        m.push_back(4 * n + 1);
        return m;
    }
    int enabled() { return (int) menu().size(); }
    std::string operation(int c)
    {
        static const char * what[] = { "insert", "insert default", "write", "write through a reference kept" };
        int op = menu()[c];
        if (op < 4 * n) return mc::fmt("%s %d", what[op / n], op % n);
        return op == 4 * n ? "write through iteration" : "move";
    }
    void apply(int c)
    {
        int op = menu()[c], i = op % n, kind = op / n;
        ++step;
        const K & key = step % 2 ? keys[i] : other[i];
        if (op == 4 * n) {
            for (auto & [k, v] : *field) v = Value<Y>::make(3 * step + index(k));
            for (auto & [k, v] : model) v = 3 * step + k;
        } else if (op == 4 * n + 1) {
            auto moved = std::make_unique<field_t>(std::move(*field));
            field = std::move(moved);
        } else if (kind < 2) {
            if (kind == 0) field->insert(key, Value<Y>::make(step));
            else field->insert(key);
            model[i] = kind == 0 ? step : 0;
        } else if (kind == 2) {
            // a copy of the value is not the value
            Y copy = (*field)(key);
            copy = Value<Y>::make(99);
            (*field)(key) = Value<Y>::make(step);
            address[i] = &(*field)(key);
            model[i] = step;
        } else {
            *address[i] = Value<Y>::make(step);
            model[i] = step;
        }
    }
    int index(const K & k)
    {
        for (int i = 0; i < n; ++i)
            if (keys[i] == k) return i;
        mc::fail("keys", "an entry that was never inserted");
    }
    void check()
    {
        const auto & c = *field;
        mc::require(c.size() == (int) model.size(), "size", "%d entries instead of %zu", c.size(), model.size());
        mc::require(c.name() == title, "name", "the name is '%s'", c.name().c_str());
        for (auto [i, v] : model) {
            mc::require(Value<Y>::read(c(keys[i])) == v, "value", "entry %d is %d instead of %d", i, Value<Y>::read(c(keys[i])), v);
            mc::require(&(*field)(other[i]) == &c(keys[i]), "value", "entry %d has two places", i);
        }
        // what has no entry has no value
        auto refused = [](auto && read) {
            try {
                read();
            } catch (const mc::Violation &) {
                throw;
            } catch (const std::exception &) {
                return true;
            }
            return false;
        };
        for (int i = 0; i < n; ++i)
            if (!model.count(i)) {
                mc::require(refused([&] { (void) c(keys[i]); }), "absent", "entry %d, which does not exist, has a value", i);
                mc::require(refused([&] { (void) (*field)(other[i]); }), "absent", "entry %d, which does not exist, has a value that can be changed", i);
            }
        mc::require(c.size() == (int) model.size(), "size", "reading entries that do not exist makes %d of %zu", c.size(), model.size());
        auto all = [&](auto && begin, auto && end, const char * how) {
            std::map<int, int> seen;
            int count = 0;
            for (auto it = begin; it != end; ++it, ++count) seen[index(it->first)] = Value<Y>::read(it->second);
            mc::require(seen == model && count == (int) model.size(), "iteration", "%s yields %d entries, or other values", how, count);
        };
        all(field->begin(), field->end(), "iteration");
        all(c.begin(), c.end(), "constant iteration");
        all(c.cbegin(), c.cend(), "constant iteration");
    }
    void finish() {}
    uint64_t hash()
    {
        uint64_t h = 1;
        for (auto [i, v] : model) h = mc::mix(h, i * 100 + v);
        for (auto a : address) h = mc::mix(h, a != nullptr);
        return h;
    }
};
template <class K, class Y> struct Sys : Histories<K, Y> {
    using Histories<K, Y>::Histories;
    std::string name(int c) { return this->operation(c); }
};
template <class K, class Y> static void histories(const char * label, std::vector<K> keys, int depth)
{
    for (int from = 0; from <= (int) keys.size(); ++from)
        mc::explore(mc::fmt("%s from %d", label, from), depth, [&] { return Sys<K, Y>(keys, from); });
}

// fields over meshes: every set of cells of a grid
static V pos(const C<1> & x) { return { x[0], 0, 0 }; }
static V pos(const C<2> & x) { return { x[0], x[1], 0 }; }
static V pos(const C<3> & x) { return { x[0], x[1], x[2] }; }
static V pos(const P & x) { return { x[0] * std::cos(x[1]), x[0] * std::sin(x[1]), 0 }; }
static V pos(const S & x) { return { x[0] * std::sin(x[1]) * std::cos(x[2]), x[0] * std::sin(x[1]) * std::sin(x[2]), x[0] * std::cos(x[1]) }; }
template <class T> static T at(const V & x)
{
    if constexpr (std::is_same_v<T, C<1>>) return C<1>({ x[0] });
    if constexpr (std::is_same_v<T, C<2>>) return C<2>({ x[0], x[1] });
    if constexpr (std::is_same_v<T, C<3>>) return C<3>({ x[0], x[1], x[2] });
    if constexpr (std::is_same_v<T, P>) return P(std::hypot(x[0], x[1]), std::atan2(x[1], x[0]));
    if constexpr (std::is_same_v<T, S>) return S(std::hypot(x[0], x[1], x[2]), std::atan2(std::hypot(x[0], x[1]), x[2]), std::atan2(x[1], x[0]));
}
using Cells = std::vector<std::vector<int>>;
// the cells of the grids, by the bits of the corners (at most 3^D points)
static const Cells SEGMENTS { { 0, 1 }, { 2, 1 }, { 2, 3 }, { 4, 3 }, { 4, 5 }, { 0, 6 } };
static const Cells TRIANGLES { { 0, 1, 4 }, { 4, 3, 0 }, { 1, 2, 5 }, { 5, 4, 1 }, { 3, 4, 7 }, { 6, 3, 7 }, { 8, 4, 5 }, { 4, 8, 7 } };
static const Cells TETRAHEDRA { { 0, 1, 2, 4 }, { 3, 2, 1, 7 }, { 5, 1, 4, 7 }, { 6, 4, 2, 7 }, { 7, 1, 2, 4 }, { 0, 1, 2, 8 } };
static V corner(int N, int i)
{
    if (N == 1) return { 0.5 + i, 0.25 - 0.5 * i, 1.0 + i * i };
    if (N == 2) return { 0.5 + i % 3, 0.75 + i / 3, 1.0 + 0.25 * i };
    if (i == 8) return { 0.5, 0.5, -0.75 };
    return { 0.25 + i % 2, 0.5 + i / 2 % 2, 0.125 + i / 4 };
}
template <class T, int N> static void fields(const char * name)
{
    constexpr int D = T::dim;
    using cell_t = mg::geometric_simplex_t<N, D>;
    using mesh_t = mito::mesh::mesh_t<cell_t>;
    const Cells & original = N == 1 ? SEGMENTS : N == 2 ? TRIANGLES : TETRAHEDRA;
    const int points = N == 1 ? 7 : 9;
    for (int set = 0; set < 1 << original.size(); ++set)
        for (int erase = -1; erase < (int) original.size(); ++erase) {
            if (erase >= 0 && !(set >> erase & 1)) continue;
            std::string label = mc::fmt("%s, cells %#x", name, set);
            if (erase >= 0) label += mc::fmt(" less %d", erase);
            // nodes of their own for each cell: at points of their own, or attached to those of the others
            for (int own = 0; own < 3; ++own)
            mc::for_case(label + (own ? own == 1 ? ", discontinuous" : ", discontinuous at shared points" : ""), [&] {
                mg::coordinate_system_t<T> system;
                std::vector<mg::node_t<D>> n;
                for (int i = 0; i < points; ++i) n.push_back(mg::node(system, at<T>(corner(N, i))));
                Cells grid = original;
                std::vector<int> place(points);    // the corner that each node is at
                for (int i = 0; i < points; ++i) place[i] = i;
                if (own)
                    for (auto & cell : grid)
                        for (int & i : cell) {
                            n.push_back(own == 1 ? mg::node(system, at<T>(corner(N, i))) : mg::node_t<D>(mito::topology::vertex(), n[i]->point()));
                            place.push_back(i);
                            i = n.size() - 1;
                        }
                const int points = n.size();
                mesh_t mesh;
                std::set<int> want;
                std::vector<int> cells;
                auto nodes = [&](const std::vector<int> & c) {
                    return [&]<size_t... I>(std::index_sequence<I...>) { return std::array<mg::node_t<D>, N + 1> { n[c[I]]... }; }(std::make_index_sequence<N + 1> {});
                };
                for (int c = 0; c < (int) grid.size(); ++c)
                    if (set >> c & 1) mesh.insert(nodes(grid[c]));
                if (erase >= 0)
                    for (auto & cell : mesh.cells()) {
                        bool same = true;
                        for (int i = 0; i <= N; ++i) same = same && cell.nodes()[i] == n[grid[erase][i]];
                        if (same) {
                            mesh.erase(cell);
                            break;
                        }
                    }
                for (int c = 0; c < (int) grid.size(); ++c)
                    if ((set >> c & 1) && c != erase) {
                        cells.push_back(c);
                        want.insert(grid[c].begin(), grid[c].end());
                    }
                auto index = [&](const mg::node_t<D> & k) {
                    for (int i = 0; i < points; ++i)
                        if (n[i] == k) return i;
                    mc::fail("keys", "a node of no mesh");
                };
                // the keys of the field are the nodes of the mesh
                auto keys = [&](const auto & field, const char * title) {
                    mc::require(field.name() == title, "name", "the name is '%s'", field.name().c_str());
                    mc::require(field.size() == (int) want.size(), "size", "%d entries at %zu nodes", field.size(), want.size());
                    std::set<int> seen;
                    for (auto & [k, v] : field) seen.insert(index(k));
                    mc::require(seen == want, "keys", "entries at other nodes than those of the mesh");
                    mc::transition();
                };
                auto zero = md::mesh_field<double>(mesh, "zero");
                keys(zero, "zero");
                for (int i : want) mc::require(zero(n[i]) == 0, "initial", "node %d begins at %g", i, zero(n[i]));
                for (int i : want) zero(n[i]) = i + 1;
                for (int i : want) mc::require(zero(n[i]) == i + 1, "value", "node %d has %g", i, zero(n[i]));
                auto vectors = md::mesh_field<mt::vector_t<D>>(mesh, "vectors");
                keys(vectors, "vectors");
                for (int i : want)
                    for (int d = 0; d < D; ++d) mc::require(vectors(n[i])[d] == 0, "initial", "node %d begins at %g", i, vectors(n[i])[d]);
                // from a field
                const auto f = mf::function([](const T & x) { V p = pos(x); return p[0] + 10 * p[1] + 100 * p[2]; });
                const auto field = md::mesh_field(mesh, system, f, "scalar");
                keys(field, "scalar");
                const auto g = mf::function([](const T & x) {
                    mt::vector_t<T::dim> v;
                    for (int d = 0; d < T::dim; ++d) v[d] = pos(x)[d];
                    return v;
                });
                const auto positions = md::mesh_field(mesh, system, g, "positions");
                keys(positions, "positions");
                for (int i : want) {
                    V p = corner(N, place[i]);
                    for (int d = D; d < 3; ++d) p[d] = 0;
                    mc::require(std::abs(field(n[i]) - (p[0] + 10 * p[1] + 100 * p[2])) < 1e-11, "sample", "node %d has %g", i, field(n[i]));
                    for (int d = 0; d < D; ++d) mc::require(std::abs(positions(n[i])[d] - p[d]) < 1e-12, "sample", "node %d has %g", i, positions(n[i])[d]);
                }
#ifndef NO_QUADRATURE
                // values at quadrature points
                auto quads = md::quadrature_field<double, 3>(mesh, "quadrature");
                mc::require(quads.size() == (int) cells.size() && quads.name() == "quadrature", "size", "%d entries on %zu cells", quads.size(), cells.size());
                int v = 1;
                for (auto & cell : mesh.cells()) {
                    for (int q = 0; q < 3; ++q) mc::require(quads(cell.simplex())[q] == 0, "initial", "a quadrature point begins at %g", quads(cell.simplex())[q]);
                    quads(cell.simplex()) = { 1.0 * v, 2.0 * v, 3.0 * v };
                    ++v;
                }
                v = 1;
                for (auto & cell : mesh.cells()) {
                    for (int q = 0; q < 3; ++q) mc::require(quads(cell.simplex())[q] == v * (q + 1), "value", "a quadrature point has %g", quads(cell.simplex())[q]);
                    ++v;
                }
#endif
                // fields hold on to their nodes, and outlive the mesh
                mc::evaluation(!want.empty(), mc::hash_str(mc::current));
            });
        }
}
// hundreds of nodes and cells, some of them erased
template <int N> static void many(int side)
{
    using T = mg::cartesian::coordinates_t<N>;
    using cell_t = mg::geometric_simplex_t<N, N>;
    for (int stride : { 1, 7 })
        for (int keep : { 1, 3, 50 })
            mc::for_case(mc::fmt("%d along each side in %d dimensions, by strides of %d, one in %d", side, N, stride, keep), [&] {
                big::Block<N> block(side);
                mg::coordinate_system_t<T> system;
                std::vector<mg::node_t<N>> n;
                for (auto & p : block.points) n.push_back(mg::node(system, at<T>({ p[0], p[1], p[2] })));
                mito::mesh::mesh_t<cell_t> mesh;
                for (int r = 0; r < stride; ++r)
                    for (size_t i = r; i < block.cells.size(); i += stride)
                        [&]<size_t... I>(std::index_sequence<I...>) { mesh.insert({ n[block.cells[i][I]]... }); }(std::make_index_sequence<N + 1> {});
                std::vector<cell_t *> doomed;
                int k = 0;
                for (auto & c : mesh.cells())
                    if (k++ % keep) doomed.push_back(&c);
                for (auto * c : doomed) mesh.erase(*c);
                std::map<mg::node_t<N>, int> want;
                int left = 0;
                for (auto & c : mesh.cells()) {
                    for (auto & x : c.nodes()) want[x] = std::find(n.begin(), n.end(), x) - n.begin();
                    ++left;
                }
                auto scalars = md::mesh_field<double>(mesh, "scalars");
                auto pairs = md::mesh_field<mt::vector_t<2>>(mesh, "pairs");
                const auto f = mf::function([](const T & x) { V p = pos(x); return p[0] + 100 * p[1] + 10000 * p[2]; });
                const auto sampled = md::mesh_field(mesh, system, f, "sampled");
                auto check = [&](const auto & field, auto && right) {
                    mc::require(field.size() == (int) want.size(), "size", "%d entries at %zu nodes", field.size(), want.size());
                    size_t seen = 0;
                    for (auto & [key, v] : field) {
                        auto it = want.find(key);
                        mc::require(it != want.end(), "keys", "an entry at another node than those of the mesh");
                        mc::require(right(it->second, v), "value", "node %d has another value", it->second);
                        ++seen;
                    }
                    mc::require(seen == want.size(), "keys", "%zu entries visited at %zu nodes", seen, want.size());
                    for (auto & [key, i] : want) mc::require(right(i, field(key)), "value", "node %d has another value", i);
                    mc::transition();
                };
                check(scalars, [](int, double v) { return v == 0; });
                check(pairs, [](int, auto & v) { return v[0] == 0 && v[1] == 0; });
                for (auto & [key, i] : want) scalars(key) = i + 1, pairs(key) = mt::vector_t<2> { 1.0 * i, -2.0 * i };
                check(scalars, [](int i, double v) { return v == i + 1; });
                check(pairs, [](int i, auto & v) { return v[0] == i && v[1] == -2 * i; });
                check(sampled, [&](int i, double v) { auto & p = block.points[i]; return std::abs(v - (p[0] + 100 * p[1] + 10000 * p[2])) < 1e-8; });
#ifndef NO_QUADRATURE
                auto quads = md::quadrature_field<double, 2>(mesh, "quads");
                mc::require(quads.size() == left, "size", "%d entries on %d cells", quads.size(), left);
                int v = 0;
                for (auto & c : mesh.cells()) quads(c.simplex()) = { 1.0 * v, -1.0 * v }, ++v;
                v = 0;
                for (auto & c : mesh.cells()) {
                    mc::require(quads(c.simplex())[0] == v && quads(c.simplex())[1] == -v, "value", "cell %d has another value", v);
                    ++v;
                }
#endif
                mc::evaluation(true, mc::hash_str(mc::current));
            });
}
// fields over the points of the cloud
template <int D> static void points()
{
    for (int n : { 0, 1, 2, 5, 40 })
        mc::for_case(mc::fmt("points in %d dimensions, %d more", D, n), [&] {
            auto & cloud = mg::point_cloud<D>();
            std::vector<mg::point_t<D>> mine;
            for (int i = 0; i < n; ++i) mine.push_back(cloud.point());
            auto field = md::point_field<double>(cloud, "points");
            // the points in use: these, and those that the fields above hold
            int used = 0;
            for (const auto & p : cloud) {
                mc::require(field(p) == 0, "initial", "a point begins at %g", field(p));
                ++used;
            }
            mc::require(field.name() == "points" && field.size() == used && used >= n, "size", "%d entries for %d points", field.size(), used);
            for (auto & p : mine) mc::require(field(p) == 0, "initial", "a point begins at %g", field(p));
            for (int i = 0; i < n; ++i) field(mine[i]) = i + 1;
            // points placed later do not belong to it, until inserted
            auto late = cloud.point();
            field.insert(late, 77);
            for (int i = 0; i < n; ++i) mc::require(field(mine[i]) == i + 1, "value", "point %d has %g", i, field(mine[i]));
            mc::require(field(late) == 77 && field.size() == used + 1, "value", "the late point has %g", field(late));
            mc::evaluation(n > 0, mc::hash_str(mc::current));
        });
}

int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C23");
    int depth = mc::pick(6, 8);
    {
        mg::coordinate_system_t<C<2>> system;
        std::vector<mg::node_t<2>> nodes { mg::node(system, C<2>({ 0.0, 0.0 })), mg::node(system, C<2>({ 1.0, 0.0 })), mg::node(system, C<2>({ 0.0, 0.0 })) };
        histories<mg::node_t<2>, double>("scalars at nodes", nodes, depth);
        histories<mg::node_t<2>, mt::vector_t<3>>("vectors at nodes", nodes, depth - 1);
        std::vector<mg::point_t<2>> points;
        for (auto & n : nodes) points.push_back(n->point());
        histories<mg::point_t<2>, mt::vector_t<2>>("vectors at points", points, depth - 1);
        std::vector<md::discretization_node_t> dofs(3);
        histories<md::discretization_node_t, double>("scalars at discretization nodes", dofs, depth);
        using segment_t = mito::topology::oriented_simplex_t<1>;
        auto v0 = mito::topology::vertex(), v1 = mito::topology::vertex();
        auto a = mito::topology::segment({ v0, v1 });
        // a segment and its flip are different keys
        auto b = mito::topology::flip(a);
        histories<segment_t, std::array<double, 2>>("pairs on segments", { a, b }, depth);
        histories<segment_t, std::string>("strings on segments", { a, b }, depth - 1);
        histories<segment_t, int>("numbers on segments", { a, b }, depth);
    }
    points<1>();
    points<2>();
    points<3>();
    fields<C<1>, 1>("segments in 1D");
    fields<C<2>, 1>("segments in 2D");
    fields<C<3>, 1>("segments in 3D");
    fields<C<2>, 2>("triangles in 2D");
    fields<C<3>, 2>("triangles in 3D");
    fields<C<3>, 3>("tetrahedra");
    fields<P, 2>("triangles in polar coordinates");
    fields<S, 3>("tetrahedra in spherical coordinates");
    many<1>(mc::pick(1300, 5000));
    many<2>(mc::pick(24, 50));
    many<3>(mc::pick(6, 11));
    return mc::finish();
}
