// C16: the parts of a mesh. Every subset of the cells of a few grids, every number of parts.
#include "mc.h"
#include "big.h"
#include <mito/mesh.h>
#include <mito/mesh/metis/public.h>
namespace mg = mito::geometry;

template <int D>
static auto at(const std::array<double, 3> & x)
{
    if constexpr (D == 1) return mg::cartesian::coordinates_t<1>({ x[0] });
    if constexpr (D == 2) return mg::cartesian::coordinates_t<2>({ x[0], x[1] });
    if constexpr (D == 3) return mg::cartesian::coordinates_t<3>({ x[0], x[1], x[2] });
}
struct Grid {
    std::vector<std::array<double, 3>> points;
    std::vector<std::vector<int>> cells;
};
template <int N, int D>
struct World {
    using cell_t = mg::geometric_simplex_t<N, D>;
    using mesh_t = mito::mesh::mesh_t<cell_t>;
    using Key = std::vector<const void *>;
    mg::coordinate_system_t<mg::cartesian::coordinates_t<D>> system;
    std::vector<mg::node_t<D>> nodes;
    mesh_t mesh;
    // {how}: 0 the cells in order, 1 the nodes created in reverse order, 2 all cells inserted and those not in {mask} erased
    World(const Grid & g, unsigned mask, int how)
    {
        int n = g.points.size();
        std::vector<std::optional<mg::node_t<D>>> made(n);
        for (int i = 0; i < n; ++i) {
            int k = how == 1 ? n - 1 - i : i;
            made[k].emplace(mg::node(system, at<D>(g.points[k])));
        }
        for (auto & m : made) nodes.push_back(*m);
        for (size_t c = 0; c < g.cells.size(); ++c) {
            if (how != 2 && !(c > 31 || mask >> c & 1)) continue;
            [&]<size_t... I>(std::index_sequence<I...>) {
                mesh.insert({ nodes[g.cells[c][I]]... });
            }(std::make_index_sequence<N + 1> {});
        }
        if (how == 2) {
            std::vector<cell_t *> doomed;
            size_t c = 0;
            for (auto & cell : mesh.cells())
                if (!(mask >> c++ & 1)) doomed.push_back((cell_t *) &cell);
            for (auto * p : doomed) mesh.erase(*p);
        }
    }
    // the nodes of a cell, by their index in the grid
    std::vector<int> corners(const cell_t & c) const
    {
        std::vector<int> r;
        for (auto & x : c.nodes()) {
            size_t i = std::find(nodes.begin(), nodes.end(), x) - nodes.begin();
            mc::require(i < nodes.size(), "foreign-node", "a part has a node from elsewhere");
            r.push_back(i);
        }
        return r;
    }
    std::vector<std::vector<int>> list(const mesh_t & m) const
    {
        std::vector<std::vector<int>> r;
        for (auto & c : m.cells()) {
            r.push_back(corners(c));
            // the cell is the oriented simplex on these nodes
            auto v = c.simplex()->vertices();
            std::array<mito::topology::vertex_t, N + 1> w;
            for (int i = 0; i <= N; ++i) w[i] = c.nodes()[i]->vertex();
            mc::require(mito::math::permutation_sign(v, w) == 1, "orientation", "a cell of a part is not oriented as its nodes");
        }
        mc::require(m.nCells() == (int) r.size(), "count", "nCells() is %d for %zu cells", m.nCells(), r.size());
        return r;
    }
};
static std::string str(const std::vector<int> & v)
{
    std::string s;
    for (int i : v) s += std::to_string(i) + " ";
    return s;
}
template <int N, int D>
static void grid(const char * name, const Grid & g, int max_parts)
{
    unsigned all = (1u << g.cells.size()) - 1;
    for (unsigned mask = 1; mask <= all; ++mask) {
        int size = __builtin_popcount(mask);
        for (int parts = 1; parts <= std::min(size, max_parts); ++parts)
            mc::for_case(mc::fmt("%s cells %x in %d parts", name, mask, parts), [&] {
                std::vector<int> painting;
                for (int how = 0; how < 3; ++how) {
                    World<N, D> w(g, mask, how);
                    auto before = w.list(w.mesh);
                    std::vector<std::vector<int>> want;
                    for (size_t c = 0; c < g.cells.size(); ++c)
                        if (mask >> c & 1) want.push_back(g.cells[c]);
                    auto a = before, b = want;
                    std::sort(a.begin(), a.end()), std::sort(b.begin(), b.end());
                    mc::require(a == b, "mesh", "the mesh does not have the cells inserted");
                    // every cell is in exactly one part
                    std::map<std::vector<int>, int> part;
                    for (int r = 0; r < parts; ++r) {
                        auto p = mito::mesh::metis::partition(w.mesh, parts, r);
                        for (auto & c : w.list(p)) {
                            mc::require(std::count(want.begin(), want.end(), c), "foreign", "part %d has a cell %sthat is not in the mesh", r, str(c).c_str());
                            auto [it, fresh] = part.insert({ c, r });
                            mc::require(fresh, "twice", "cell %sis in parts %d and %d", str(c).c_str(), it->second, r);
                        }
                        // asking again gives the same part
                        auto q = mito::mesh::metis::partition(w.mesh, parts, r);
                        mc::require(w.list(p) == w.list(q), "unstable", "asking for part %d again gives other cells", r);
                        mc::transition(2);
                    }
                    for (auto & c : want) mc::require(part.count(c), "lost", "cell %sis in no part", str(c).c_str());
                    mc::require(w.list(w.mesh) == before, "modified", "the mesh was modified");
                    // every process finds the same parts, wherever its vertices happen to be
                    std::vector<int> painted;
                    for (auto & c : before) painted.push_back(part[c]);
                    if (how == 0) painting = painted;
                    if (how == 1)
                        mc::require(painted == painting, "addresses", "the parts depend on the addresses of the vertices: %s and %s", str(painting).c_str(), str(painted).c_str());
                    mc::evaluation(parts > 1, mc::mix(mc::hash_str(mc::current), how));
                }
            });
    }
}

// meshes of hundreds of cells, in few and many parts
template <int N>
static void many(int n)
{
    big::Block<N> block(n);
    Grid g;
    g.points = block.points;
    for (auto & c : block.cells) g.cells.push_back({ c.begin(), c.end() });
    int size = g.cells.size();
    for (int parts : { 1, 2, 3, 4, 5, 7, 10, 16, 33, 64 })
        for (int thin = 0; thin < 2; ++thin)
            mc::for_case(mc::fmt("%d cells along each side in %d dimensions%s, in %d parts", n, N, thin ? ", every third erased" : "", parts), [&] {
                World<N, N> w(g, -1u, 1);
                std::map<std::vector<int>, int> part;
                if (thin) {
                    std::vector<typename World<N, N>::cell_t *> doomed;
                    int k = 0;
                    for (auto & c : w.mesh.cells())
                        if (k++ % 3 == 1) doomed.push_back(&c);
                    for (auto * c : doomed) w.mesh.erase(*c);
                }
                auto before = w.list(w.mesh);
                mc::require((int) before.size() == (thin ? size - (size + 1) / 3 : size), "mesh", "the mesh has %zu cells", before.size());
                std::set<std::vector<int>> want(before.begin(), before.end());
                for (int r = 0; r < parts; ++r) {
                    auto p = mito::mesh::metis::partition(w.mesh, parts, r);
                    for (auto & c : w.list(p)) {
                        mc::require(want.count(c), "foreign", "part %d has a cell %sthat is not in the mesh", r, str(c).c_str());
                        auto [it, fresh] = part.insert({ c, r });
                        mc::require(fresh, "twice", "cell %sis in parts %d and %d", str(c).c_str(), it->second, r);
                    }
                    mc::transition();
                }
                mc::require(part.size() == want.size(), "lost", "%zu cells of %zu are in some part", part.size(), want.size());
                mc::require(w.list(w.mesh) == before, "modified", "the mesh was modified");
                mc::evaluation(parts > 1, mc::hash_str(mc::current));
            });
}

int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C16");
    {
        Grid g;
        int n = mc::pick(7, 9);
        for (int i = 0; i <= n; ++i) g.points.push_back({ 1.0 * i, 0.5 * i * i, 0 });
        for (int i = 0; i < n; ++i) g.cells.push_back(i % 2 ? std::vector<int> { i + 1, i } : std::vector<int> { i, i + 1 });
        grid<1, 1>("chain of segments", g, n);
        grid<1, 2>("chain of segments in the plane", g, n);
    }
    {
        // squares cut along one diagonal, the orientation alternating
        Grid g;
        int n = mc::pick(2, 3);
        for (int j = 0; j <= 2; ++j)
            for (int i = 0; i <= n; ++i) g.points.push_back({ 1.0 * i, 1.0 * j, 0.25 * i * j });
        for (int j = 0; j < 2; ++j)
            for (int i = 0; i < n; ++i) {
                int a = j * (n + 1) + i, b = a + 1, c = a + n + 1, d = c + 1;
                g.cells.push_back({ a, b, d });
                g.cells.push_back((i + j) % 2 ? std::vector<int> { a, d, c } : std::vector<int> { c, d, a });
            }
        grid<2, 2>("grid of triangles", g, 8);
        grid<2, 3>("grid of triangles in space", g, 3);
    }
    {
        Grid g;
        for (int i = 0; i < 8; ++i) g.points.push_back({ 1.0 * (i & 1), 1.0 * (i >> 1 & 1), 1.0 * (i >> 2) });
        int p[3] = { 0, 1, 2 };
        do
            g.cells.push_back({ 0, 1 << p[0], (1 << p[0]) | (1 << p[1]), 7 });
        while (std::next_permutation(p, p + 3));
        g.points.push_back({ 0.5, 0.5, 2 });
        g.cells.push_back({ 4, 5, 7, 8 });
        g.cells.push_back({ 4, 6, 7, 8 });
        grid<3, 3>("cube of tetrahedra", g, 8);
    }
    many<1>(mc::pick(1100, 3000));
    many<2>(mc::pick(24, 40));
    many<3>(mc::pick(6, 9));
    return mc::finish();
}
