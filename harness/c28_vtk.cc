// C28: what the writers hand over to VTK, by stand-ins of its classes. Every set of cells of small grids, in coordinates
// of every kind; every history of recording and writing.
#include "grids.h"
#include <mito/io.h>
namespace vtk = mito::io::vtk;
using V = std::array<double, 3>;
using P = mg::polar::coordinates_t<2>;
using S = mg::spherical::coordinates_t<3>;
template <int D> using C = mg::cartesian::coordinates_t<D>;
template <class T> static T place(const V & x)
{
    if constexpr (std::is_same_v<T, C<1>>) return C<1>({ x[0] });
    if constexpr (std::is_same_v<T, C<2>>) return C<2>({ x[0], x[1] });
    if constexpr (std::is_same_v<T, C<3>>) return C<3>({ x[0], x[1], x[2] });
    if constexpr (std::is_same_v<T, P>) return P(std::hypot(x[0], x[1]), std::atan2(x[1], x[0]));
    if constexpr (std::is_same_v<T, S>) return S(std::hypot(x[0], x[1], x[2]), std::atan2(std::hypot(x[0], x[1]), x[2]), std::atan2(x[1], x[0]));
}
// the corners of a cell as they appear in a file: where they are, and the values of the fields there
using Corner = std::pair<std::array<long, 3>, std::vector<double>>;
static std::array<long, 3> spot(const V & x, double unit = 1) { return { std::lround(x[0] / unit * 1e7), std::lround(x[1] / unit * 1e7), std::lround(x[2] / unit * 1e7) }; }
struct Field {
    std::string name;
    int components;
    std::function<double(int node, int component)> value;
};
// compare what was written to a file with the cells (by their nodes), and the nodes
static void compare(const std::string & file, const std::vector<V> & x, const std::vector<std::vector<int>> & cells, const std::set<int> & used, const std::vector<Field> & fields, int writes)
{
    auto it = standin::files.find(file);
    mc::require(it != standin::files.end(), "file", "there is no file '%s'", file.c_str());
    const auto & f = it->second;
    mc::require(f.writes == writes, "file", "'%s' was written %d times instead of %d", file.c_str(), f.writes, writes);
    mc::require(f.points.size() == used.size(), "points", "%zu points for %zu nodes", f.points.size(), used.size());
    mc::require(f.cells.size() == cells.size(), "cells", "%zu cells instead of %zu", f.cells.size(), cells.size());
    mc::require(f.arrays.size() == fields.size(), "arrays", "%zu arrays for %zu fields", f.arrays.size(), fields.size());
    std::vector<const standin::File::Array *> arrays;
    for (auto & g : fields) {
        auto a = f.arrays.find(g.name);
        mc::require(a != f.arrays.end(), "arrays", "there is no array '%s'", g.name.c_str());
        mc::require(a->second.components == g.components && a->second.written.size() == used.size(), "arrays", "array '%s' has %zu tuples of %d instead of %zu of %d", g.name.c_str(), a->second.written.size(), a->second.components, used.size(), g.components);
        arrays.push_back(&a->second);
    }
    auto expected = [&](int node) {
        Corner c { spot(x[node]), {} };
        for (auto & g : fields)
            for (int k = 0; k < g.components; ++k) c.second.push_back(g.value(node, k));
        return c;
    };
    auto found = [&](long long id) {
        mc::require(id >= 0 && id < (long long) f.points.size(), "cells", "a cell uses point %lld of %zu", id, f.points.size());
        Corner c { spot(f.points[id], unit), {} };
        for (size_t i = 0; i < fields.size(); ++i) {
            mc::require(arrays[i]->written[id], "values", "point %lld has no value of '%s'", id, fields[i].name.c_str());
            for (int k = 0; k < fields[i].components; ++k) c.second.push_back(arrays[i]->values[id * fields[i].components + k]);
        }
        return c;
    };
    std::multiset<Corner> want, got;
    for (int i : used) want.insert(expected(i));
    for (size_t i = 0; i < f.points.size(); ++i) got.insert(found(i));
    mc::require(want == got, "points", "the points and values in '%s' are not those of the nodes", file.c_str());
    using Cell = std::pair<int, std::vector<Corner>>;
    std::multiset<Cell> w, g;
    std::set<long long> seen;
    for (auto & c : cells) {
        Cell e { c.size() == 2 ? 3 : c.size() == 3 ? 5 : 10, {} };
        for (int i : c) e.second.push_back(expected(i));
        w.insert(e);
    }
    for (auto & c : f.cells) {
        Cell e { c.type, {} };
        for (auto id : c.ids) e.second.push_back(found(id)), seen.insert(id);
        g.insert(e);
    }
    mc::require(w == g, "cells", "the cells in '%s' are not those of the mesh", file.c_str());
    mc::require(cells.empty() || seen.size() == used.size(), "cells", "cells use %zu points instead of %zu", seen.size(), used.size());
}
// grids: in space, with two nodes at one place
static const std::vector<V> X1 { { 0.5, 0, 0 }, { 2, 0, 0 }, { 3, 0, 0 }, { 2, 0, 0 }, { -1, 0, 0 } };
static const std::vector<V> X2 { { 0.5, 0.25, 0 }, { 2, 0, 0 }, { 2, 1.5, 0 }, { 0, 1, 0 }, { 0, 1, 0 }, { -1.5, 1, 0 } };
static const std::vector<V> X3 { { 0.5, 0.25, 0.125 }, { 2, 0, 0.5 }, { 0.25, 2, 1 }, { 0.5, 0.5, -2 }, { 0.5, 0.5, -2 }, { 2, 2, 2 } };
using Cells = std::vector<std::vector<int>>;
static const Cells SEG { { 0, 1 }, { 2, 1 }, { 2, 3 }, { 4, 0 }, { 3, 4 } };
static const Cells TRI { { 0, 1, 2 }, { 2, 3, 0 }, { 4, 0, 2 }, { 5, 4, 0 }, { 3, 5, 2 } };
static const Cells TET { { 0, 1, 2, 3 }, { 1, 0, 2, 5 }, { 4, 2, 1, 0 }, { 5, 2, 3, 1 } };
// values of every size, and all their digits
static double scalar(int i, int) { return (1.5 * i + 0.1) * (i % 3 == 1 ? 1e-60 : i % 3 == 2 ? 1e60 : 1); }
static double vector(int i, int k) { return 10 * i + k - 0.3; }
static double tensor(int i, int k) { return (100 * i - k * k - 1) / 3e20; }

template <class T, int N> struct Scene {
    static constexpr int D = T::dim;
    using cell_t = mg::geometric_simplex_t<N, D>;
    const std::vector<V> & x;
    Cells cells;
    mg::coordinate_system_t<T> system;
    std::vector<mg::node_t<D>> nodes;
    mito::mesh::mesh_t<cell_t> mesh;
    std::set<int> used;
    Scene(const std::vector<V> & x, const Cells & cells) : x(x), cells(cells)
    {
        for (auto & p : x) nodes.push_back(mg::node(system, place<T>({ p[0] * unit, p[1] * unit, p[2] * unit })));
        for (auto & c : cells) insert(c);
    }
    void insert(const std::vector<int> & c)
    {
        [&]<size_t... I>(std::index_sequence<I...>) { mesh.insert({ nodes[c[I]]... }); }(std::make_index_sequence<N + 1> {});
        used.insert(c.begin(), c.end());
    }
    template <class K> int index(const K & k) const
    {
        for (size_t i = 0; i < nodes.size(); ++i) {
            if constexpr (requires { nodes[i] == k; }) {
                if (nodes[i] == k) return (int) i;
            } else if (nodes[i]->point() == k) return (int) i;
        }
        mc::fail("nodes", "an entry for a node of another mesh");
    }
};
template <class F> static void fill(F & field, const auto & index, double (*value)(int, int))
{
    for (auto & [key, v] : field) {
        if constexpr (std::is_arithmetic_v<std::remove_cvref_t<decltype(v)>>) v = value(index(key), 0);
        else
            for (int k = 0; k < std::remove_cvref_t<decltype(v)>::size; ++k) std::begin(v)[k] = value(index(key), k);
    }
}
template <class T, int N> static void meshes(const char * name, const std::vector<V> & x, const Cells & all)
{
    constexpr int D = T::dim;
    int n = (int) all.size();
    for (int set = 0; set < 1 << n; ++set)
        for (int order = 0; order < 2; ++order)
            mc::for_case(mc::fmt("%s, cells %#x, order %d", name, set, order), [&] {
                Cells cells;
                for (int i = 0; i < n; ++i)
                    if (set >> (order ? n - 1 - i : i) & 1) cells.push_back(all[order ? n - 1 - i : i]);
                Scene<T, N> s(x, cells);
                standin::files.clear();
                auto index = [&](const auto & k) { return s.index(k); };
                vtk::grid_writer("mesh", s.mesh, s.system).write();
                compare("mesh.vtu", x, cells, s.used, {}, 1);
                auto a = md::mesh_field<double>(s.mesh, "scalar");
                auto b = md::mesh_field<mt::vector_t<D>>(s.mesh, "vector");
                auto c = md::mesh_field<mt::matrix_t<D>>(s.mesh, "tensor");
                fill(a, index, scalar), fill(b, index, vector), fill(c, index, tensor);
                auto w = vtk::field_writer("fields", s.mesh, s.system);
                w.record(a), w.record(b), w.record(c), w.record(b, "again");
                w.write();
                const std::vector<Field> fields { { "scalar", 1, scalar }, { "vector", D, vector }, { "tensor", D * D, tensor }, { "again", D, vector } };
                compare("fields.vtu", x, cells, s.used, fields, 1);
                mc::require(standin::files.size() == 2, "file", "%zu files written instead of 2", standin::files.size());
                // by several processes
                for (int tasks = 1; tasks < 4; ++tasks)
                    for (int rank = 0; rank < tasks; ++rank) {
                        standin::tasks = tasks, standin::rank = rank;
                        standin::files.clear();
                        auto p = vtk::parallel_field_writer("part", s.mesh, s.system);
                        p.record(b), p.record(a);
                        p.write();
                        const std::vector<Field> some { { "vector", D, vector }, { "scalar", 1, scalar } };
                        auto own = mc::fmt("part_%d.vtu", rank);
                        compare(own, x, cells, s.used, some, 1);
                        compare("part.pvtu", x, cells, s.used, some, 1);
                        const auto & f = standin::files["part.pvtu"];
                        mc::require(f.pieces == tasks && f.start == rank && f.end == rank && standin::files.size() == 2, "pieces", "%d pieces of %d, from %d to %d by process %d", f.pieces, tasks, f.start, f.end, rank);
                        mc::require(vtkMPIController::alive == 0, "pieces", "the controller is not finalized");
                        // the mesh alone
                        standin::files.clear();
                        vtk::parallel_grid_writer("whole", s.mesh, s.system).write();
                        compare(mc::fmt("whole_%d.vtu", rank), x, cells, s.used, {}, 1);
                        compare("whole.pvtu", x, cells, s.used, {}, 1);
                        const auto & g = standin::files["whole.pvtu"];
                        mc::require(g.pieces == tasks && g.start == rank && g.end == rank && standin::files.size() == 2 && vtkMPIController::alive == 0, "pieces", "%d pieces of %d, from %d to %d by process %d", g.pieces, tasks, g.start, g.end, rank);
                    }
                mc::evaluation(true, mc::hash_str(mc::current));
            });
}
// hundreds of cells
template <class T, int N> static void many(const char * name, int side)
{
    for (int keep : { 1, 3 })
        mc::for_case(mc::fmt("%s, %d along each side, one in %d", name, side, keep), [&] {
            constexpr int D = T::dim;
            big::Block<N> block(side);
            std::vector<V> x;
            for (auto & p : block.points) x.push_back({ 1 + p[0] / 8, D > 1 ? 1 + p[1] / 4 - p[0] / 16 : 0, D > 2 ? 0.5 + p[2] / 4 : 0 });
            Cells cells;
            for (size_t i = 0; i < block.cells.size(); i += keep) cells.push_back({ block.cells[i].begin(), block.cells[i].end() });
            Scene<T, N> s(x, cells);
            standin::files.clear();
            auto index = [&](const auto & k) { return s.index(k); };
            vtk::grid_writer("mesh", s.mesh, s.system).write();
            compare("mesh.vtu", x, cells, s.used, {}, 1);
            auto a = md::mesh_field<double>(s.mesh, "scalar");
            auto b = md::mesh_field<mt::vector_t<D>>(s.mesh, "vector");
            fill(a, index, scalar), fill(b, index, vector);
            auto w = vtk::field_writer("fields", s.mesh, s.system);
            w.record(a), w.record(b);
            w.write();
            compare("fields.vtu", x, cells, s.used, { { "scalar", 1, scalar }, { "vector", D, vector } }, 1);
            standin::tasks = 2, standin::rank = 1;
            auto p = vtk::parallel_field_writer("part", s.mesh, s.system);
            p.record(b), p.record(a);
            p.write();
            compare("part_1.vtu", x, cells, s.used, { { "vector", D, vector }, { "scalar", 1, scalar } }, 1);
            mc::evaluation(true, mc::hash_str(mc::current));
        });
}
// a cloud: the points of the nodes of its kind
template <class T> static void clouds(const char * name, const std::vector<V> & x)
{
    constexpr int D = T::dim;
    for (int set = 0; set < 1 << x.size(); ++set)
        mc::fork_case(mc::fmt("%s, points %#x", name, set), [&] {
            auto & cloud = mg::point_cloud<D>();
            mg::coordinate_system_t<T> system;
            std::vector<mg::point_t<D>> points;
            std::vector<V> where;
            std::set<int> used;
            for (size_t i = 0; i < x.size(); ++i)
                if (set >> i & 1) {
                    used.insert((int) points.size());
                    points.push_back(cloud.point());
                    where.push_back(x[i]);
                    system.place(points.back(), place<T>(x[i]));
                }
            standin::files.clear();
            auto index = [&](const auto & k) { return int(std::find(points.begin(), points.end(), k) - points.begin()); };
            vtk::grid_writer("cloud", cloud, system).write();
            compare("cloud.vtu", where, {}, used, {}, 1);
            auto a = md::point_field<double>(cloud, "scalar");
            auto b = md::point_field<mt::vector_t<D>>(cloud, "vector");
            fill(a, index, scalar), fill(b, index, vector);
            auto w = vtk::field_writer("fields", cloud, system);
            w.record(a), w.record(b);
            w.write();
            compare("fields.vtu", where, {}, used, { { "scalar", 1, scalar }, { "vector", D, vector } }, 1);
            standin::tasks = 2, standin::rank = 1;
            auto p = vtk::parallel_field_writer("part", cloud, system);
            p.record(a);
            p.write();
            compare("part_1.vtu", where, {}, used, { { "scalar", 1, scalar } }, 1);
            vtk::parallel_grid_writer("whole", cloud, system).write();
            compare("whole_1.vtu", where, {}, used, {}, 1);
            mc::evaluation(true, mc::hash_str(mc::current));
        });
}
// function spaces: every set of cells and choice of constrained sides
template <class K> static void spaces(const char * name, const Grid & grid)
{
    int n = std::min<int>(grid.cells.size(), mc::pick(5, 7));
    std::vector<V> x;
    for (auto & p : grid.points) x.push_back({ p[0], K::dim == 1 ? 0 : p[1], 0 });
    for (int set = 1; set < 1 << n; ++set) {
        std::vector<Cell> cells;
        for (int i = 0; i < n; ++i)
            if (set >> i & 1) cells.push_back(grid.cells[i]);
        const auto sides = ::sides<K>(cells, false);
        for (uint64_t mask : { 0ull, 1ull, (1ull << sides.size()) - 1 })
            mc::for_case(name + str(cells) + mc::fmt(" sides %#llx", (unsigned long long) mask), [&] {
                World<K> w(grid, cells);
                auto manifold = mito::manifolds::manifold(w.mesh, w.system);
                auto zero = mf::zero<typename K::X>;
                const auto where = domain(w, sides, mask);
                auto constraints = mito::constraints::dirichlet_bc(where, zero);
                auto fs = fem::function_space<typename K::element_t>(manifold, constraints);
                auto u = fs.template fem_field<double>("solution");
                std::set<int> used;
                for (auto & c : cells) used.insert(c.begin(), c.end());
                const auto & values = u.nodal_values();
                for (int i : used) u(fs.node_map().at(w.nodes[i])) = scalar(i, 0);
                standin::files.clear();
                standin::tasks = 2, standin::rank = 0;
                auto fw = vtk::field_writer("u", fs, w.system);
                fw.record(values), fw.record(values, "u");
                fw.write();
                compare("u.vtu", x, cells, used, { { values.name(), 1, scalar }, { "u", 1, scalar } }, 1);
                vtk::grid_writer("grid", fs, w.system).write();
                compare("grid.vtu", x, cells, used, {}, 1);
                auto pw = vtk::parallel_field_writer("p", fs, w.system);
                pw.record(values, "v");
                pw.write();
                compare("p_0.vtu", x, cells, used, { { "v", 1, scalar } }, 1);
                vtk::parallel_grid_writer("whole", fs, w.system).write();
                compare("whole_0.vtu", x, cells, used, {}, 1);
                mc::evaluation(true, mc::hash_str(mc::current));
            });
    }
}
// histories: what is written is what was recorded by then, on the mesh as it was
struct Histories {
    Scene<C<2>, 2> s;
    using writer_t = decltype(vtk::field_writer("", s.mesh, s.system));
    using field_t = decltype(md::mesh_field<double>(s.mesh, ""));
    Cells cells;
    std::set<int> used;
    std::unique_ptr<writer_t> w[2];
    std::unique_ptr<field_t> f;
    int base = 0, writes[2] = { 0, 0 }, step = 0;
    std::map<std::string, int> recorded[2];
    struct Image {
        std::map<std::string, int> arrays;
    } written[2];
    std::string prefix;
    Histories(int) : s(X2, { TRI[0], TRI[1] }), cells(s.cells), used(s.used)
    {
        standin::files.clear();
        for (int k = 0; k < 2; ++k) w[k] = std::make_unique<writer_t>(mc::fmt("out%d", k), s.mesh, s.system);
        f = std::make_unique<field_t>(md::mesh_field<double>(s.mesh, "f"));
        change();
    }
    static double value(int i, int b) { return 1000 * b + i; }
    void change()
    {
        ++base;
        for (auto & [n, v] : *f) v = value(s.index(n), base);
    }
    // record under its name, or another; write; change the field; insert a cell
    int enabled() { return 8; }
    std::string name(int c)
    {
        static const char * what[] = { "record into 0", "record into 0 as g", "write 0", "record into 1", "record into 1 as g", "write 1", "change", "insert or erase a cell" };
        return what[c];
    }
    void apply(int c)
    {
        ++step;
        if (c < 6) {
            int k = c / 3;
            if (c % 3 == 0) w[k]->record(*f), recorded[k]["f"] = base;
            if (c % 3 == 1) w[k]->record(*f, "g"), recorded[k]["g"] = base;
            if (c % 3 == 2) w[k]->write(), ++writes[k], written[k].arrays = recorded[k];
        } else if (c == 6) change();
        else if (step % 2) s.insert(TRI[2]);
        else s.mesh.erase(*s.mesh.cells().begin());
    }
    void check()
    {
        mc::require((int) standin::files.size() == (writes[0] > 0) + (writes[1] > 0), "file", "%zu files", standin::files.size());
        for (int k = 0; k < 2; ++k) {
            if (!writes[k]) continue;
            std::vector<Field> fields;
            for (auto [n, b] : written[k].arrays) fields.push_back({ n, 1, [b = b](int i, int) { return value(i, b); } });
            compare(mc::fmt("out%d.vtu", k), X2, cells, used, fields, writes[k]);
        }
    }
    void finish() {}
    uint64_t hash()
    {
        uint64_t h = base;
        for (int k = 0; k < 2; ++k) {
            h = mc::mix(h, writes[k]);
            for (auto & [n, b] : recorded[k]) h = mc::mix(h, mc::hash_str(n) + b);
            for (auto & [n, b] : written[k].arrays) h = mc::mix(h, mc::hash_str(n) + b);
        }
        return mc::mix(h, s.mesh.cells().size());
    }
};
int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C28");
    meshes<C<1>, 1>("segments on a line", X1, SEG);
    meshes<C<2>, 1>("segments in the plane", X2, SEG);
    meshes<C<3>, 1>("segments in space", X3, SEG);
    meshes<C<2>, 2>("triangles in the plane", X2, TRI);
    meshes<C<3>, 2>("triangles in space", X3, TRI);
    meshes<C<3>, 3>("tetrahedra", X3, TET);
    meshes<P, 1>("segments in polar coordinates", X2, SEG);
    meshes<P, 2>("triangles in polar coordinates", X2, TRI);
    meshes<S, 1>("segments in spherical coordinates", X3, SEG);
    meshes<S, 2>("triangles in spherical coordinates", X3, TRI);
    meshes<S, 3>("tetrahedra in spherical coordinates", X3, TET);
    for (double u : { 0x1p-40, 0x1p40 }) {
        unit = u;
        auto in = [u](const char * what) { return mc::fmt("%s in units of %g", what, u); };
        meshes<C<1>, 1>(in("segments").c_str(), X1, SEG);
        meshes<C<2>, 2>(in("triangles").c_str(), X2, { TRI.begin(), TRI.begin() + 3 });
        meshes<C<3>, 3>(in("tetrahedra").c_str(), X3, { TET.begin(), TET.begin() + 3 });
        meshes<P, 2>(in("triangles in polar coordinates").c_str(), X2, { TRI.begin(), TRI.begin() + 3 });
        meshes<S, 3>(in("tetrahedra in spherical coordinates").c_str(), X3, { TET.begin(), TET.begin() + 3 });
    }
    unit = 1;
    // in the other quadrants and octants
    for (auto [name, sign] : std::vector<std::pair<const char *, V>> { { "opposite", { -1, -1, -1 } }, { "below and behind", { 1, -1, 1 } }, { "far off", { -300, -200, 100 } } }) {
        auto moved = [&](std::vector<V> x, int dim) {
            for (auto & p : x)
                for (int d = 0; d < dim; ++d) p[d] = std::abs(sign[d]) > 1 ? p[d] + sign[d] : p[d] * sign[d];
            return x;
        };
        auto at = [&](const char * what) { return mc::fmt("%s, %s", what, name); };
        meshes<C<1>, 1>(at("segments").c_str(), moved(X1, 1), SEG);
        meshes<C<2>, 2>(at("triangles").c_str(), moved(X2, 2), { TRI.begin(), TRI.begin() + 3 });
        meshes<C<3>, 3>(at("tetrahedra").c_str(), moved(X3, 3), { TET.begin(), TET.begin() + 3 });
        meshes<P, 2>(at("triangles in polar coordinates").c_str(), moved(X2, 2), { TRI.begin(), TRI.begin() + 3 });
        meshes<S, 3>(at("tetrahedra in spherical coordinates").c_str(), moved(X3, 3), { TET.begin(), TET.begin() + 3 });
    }
    clouds<C<1>>("points on a line", X1);
    clouds<C<2>>("points in the plane", X2);
    clouds<C<3>>("points in space", X3);
    clouds<P>("points in polar coordinates", X2);
    clouds<S>("points in spherical coordinates", X3);
    spaces<Seg1>("linear segments", LINE);
    spaces<Tri1>("linear triangles", SQUARE);
    spaces<Tri2>("quadratic triangles", SQUARE);
    many<C<1>, 1>("many segments", 1100);
    many<C<2>, 2>("many triangles", 24);
    many<C<3>, 3>("many tetrahedra", 7);
    many<P, 2>("many triangles in polar coordinates", 17);
    mc::explore("recording and writing", mc::pick(5, 7), [&] { return Histories(0); });
    return mc::finish();
}
