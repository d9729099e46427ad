// C14: a mesh against a multiset of cells: all histories of inserting cells (by their nodes, as
// copies, flipped), erasing them, removing duplicates and moving the mesh.
#include "topo.h"
#include <mito/mesh.h>
#include "big.h"
using topo::Name;
using topo::Tuple;
namespace mg = mito::geometry;

template <int D>
static auto coords(int i)
{
    // points in general position
    static const double P[6][3] = { { 0, 0, 0 }, { 1, 0.1, 0.2 }, { 0.1, 1, 0.3 },
                                    { 0.2, 0.3, 1 }, { 1.1, 1.2, 0.7 }, { 0.6, -0.8, 0.4 } };
    if constexpr (D == 1) return mg::cartesian::coordinates_t<1>({ P[i][0] + 0.01 * i });
    if constexpr (D == 2) return mg::cartesian::coordinates_t<2>({ P[i][0], P[i][1] });
    if constexpr (D == 3) return mg::cartesian::coordinates_t<3>({ P[i][0], P[i][1], P[i][2] });
}

struct Options {
    int nv;
    int env = 0;             // 1: the opposite of every cell has been registered beforehand
    bool all_orders = false;
    int max_cells = 4;
    bool copies = true, flips = true, moves = true;
};

template <int N, int D>
struct MeshWorld {
    using cell_t = mg::geometric_simplex_t<N, D>;
    using mesh_t = mito::mesh::mesh_t<cell_t>;
    using node_t = mg::node_t<D>;
    using system_t = mg::coordinate_system_t<mg::cartesian::coordinates_t<D>>;

    Options o;
    std::shared_ptr<system_t> system = std::make_shared<system_t>();
    std::vector<node_t> nodes;
    std::unique_ptr<mesh_t> mesh;
    struct Entry {
        Tuple t;          // the nodes of the cell, in order
        cell_t * at;
    };
    std::vector<Entry> cells;
    std::vector<mito::topology::simplex_t<N>> outside;
    struct Op {
        char k;
        Tuple t;
        int a;
    };
    std::vector<Op> menu;

    static auto simplex(const MeshWorld & w, const Tuple & t)
    {
        mito::topology::vertex_simplex_composition_t<N> v;
        for (int i = 0; i <= N; ++i) v[i] = w.nodes[t[i]]->vertex();
        return mito::topology::topology().template simplex<N>(v);
    }
    explicit MeshWorld(Options o) : o(o)
    {
        for (int i = 0; i < o.nv; ++i) nodes.push_back(mg::node(*system, coords<D>(i)));
        mesh = std::make_unique<mesh_t>(mito::mesh::mesh<cell_t>());
        if (o.env)
            for (auto & t : topo::tuples(o.nv, N + 1, false)) {
                bool positive = topo::parity(t) > 0;
                if (positive == (o.env == 2)) outside.push_back(simplex(*this, t));
            }
    }
    int enabled()
    {
        menu.clear();
        if ((int) cells.size() < o.max_cells)
            for (auto & t : topo::tuples(o.nv, N + 1, o.all_orders)) menu.push_back({ 'i', t, 0 });
        std::set<Tuple> seen;
        for (int i = 0; i < (int) cells.size(); ++i) {
            if (!seen.insert(cells[i].t).second && i + 1 < (int) cells.size()) continue;
            menu.push_back({ 'e', cells[i].t, i });
            if ((int) cells.size() < o.max_cells) {
                if (o.copies) menu.push_back({ 'c', cells[i].t, i });
                if (o.flips) menu.push_back({ 'f', cells[i].t, i });
            }
        }
        if (!cells.empty()) {
            menu.push_back({ 't', {}, 0 });
            menu.push_back({ 'g', {}, 0 });
            if (o.moves) menu.push_back({ 'm', {}, 0 });
        }
        return menu.size();
    }
    std::string name(int c)
    {
        if (menu.empty()) enabled();
        auto & x = menu[c];
        switch (x.k) {
            case 'i': return "insert " + str(x.t);
            case 'e': return "erase " + str(x.t);
            case 'c': return "insert a copy of " + str(x.t);
            case 'f': return "insert the flip of " + str(x.t);
            case 't': return "erase topological duplicates";
            case 'g': return "erase geometrical duplicates";
            case 'm': return "move the mesh";
        }
        return "?";
    }
    int index(const node_t & n) const
    {
        for (size_t i = 0; i < nodes.size(); ++i)
            if (nodes[i]->vertex() == n->vertex()) {
                mc::require(nodes[i]->point() == n->point(), "point", "node %zu is on the wrong point", i);
                return i;
            }
        mc::fail("foreign-node", "a cell has a node from elsewhere");
    }
    template <class C>
    Tuple tuple(const C & c) const
    {
        Tuple t;
        for (auto & n : c.nodes()) t.push_back(index(n));
        return t;
    }
    int vertex_index(const mito::topology::vertex_t & v) const
    {
        for (size_t i = 0; i < nodes.size(); ++i)
            if (nodes[i]->vertex() == v) return i;
        mc::fail("foreign-vertex", "a cell has a vertex from elsewhere");
    }
    template <int K>
    Name simplex_name(const mito::topology::simplex_t<K> & s) const
    {
        if constexpr (K == 0) return { { vertex_index(s->footprint()) }, (int) s->orientation() };
        else {
            Tuple t;
            for (auto & v : s->vertices()) t.push_back(vertex_index(v));
            return topo::name_of(t);
        }
    }
    void apply(int c)
    {
        Op x = menu[c];
        switch (x.k) {
            case 'i': {
                typename cell_t::nodes_type n = [&]<size_t... J>(std::index_sequence<J...>) {
                    return typename cell_t::nodes_type { nodes[x.t[J]]... };
                }(std::make_index_sequence<N + 1> {});
                auto & cell = mesh->insert(n);
                cells.push_back({ x.t, &cell });
                break;
            }
            case 'c': {
                auto & cell = mesh->insert(*cells[x.a].at);
                mc::require(&cell != cells[x.a].at, "copy", "inserting a copy gave the original");
                cells.push_back({ x.t, &cell });
                break;
            }
            case 'f': {
                auto f = mg::flip(*cells[x.a].at);
                Tuple t = tuple(f);
                mc::require(topo::name_of(t) == topo::name_of(x.t).flipped(), "flip", "the flip of %s has nodes %s",
                            str(x.t).c_str(), str(t).c_str());
                auto & cell = mesh->insert(f);
                cells.push_back({ t, &cell });
                break;
            }
            case 'e': {
                auto & cell = *cells[x.a].at;
                mesh->erase(cell);
                // erasing it again does nothing
                mesh->erase(cell);
                cells.erase(cells.begin() + x.a);
                break;
            }
            case 't':
            case 'g': {
                if (x.k == 't') mesh->erase_topological_duplicates();
                else mesh->erase_geometrical_duplicates();
                // one cell of each class is left, whichever
                std::set<cell_t *> left;
                for (auto & cell : mesh->cells()) left.insert(&cell);
                std::map<Name, int> classes;
                std::vector<Entry> rest;
                auto key = [&](const Entry & e) {
                    Name n = topo::name_of(e.t);
                    if (x.k == 't') n.sign = 0;
                    return n;
                };
                for (auto & e : cells) {
                    classes[key(e)];
                    if (left.count(e.at)) {
                        ++classes[key(e)];
                        rest.push_back(e);
                    }
                }
                for (auto & [n, k] : classes)
                    mc::require(k == 1, "duplicates", "%d cells on %s are left by erasing %s duplicates", k,
                                str(n.v).c_str(), x.k == 't' ? "topological" : "geometrical");
                cells = rest;
                break;
            }
            case 'm': mesh = std::make_unique<mesh_t>(std::move(*mesh)); break;
        }
    }
    template <int I>
    void check_filter()
    {
        // every I-cell, once for each chain of faces that leads to it
        std::multiset<Tuple> want, got;
        std::function<void(Tuple)> go = [&](Tuple t) {
            if ((int) t.size() == I + 1) {
                std::sort(t.begin(), t.end());
                want.insert(t);
                return;
            }
            for (auto & f : topo::boundary(t)) go(f.v);
        };
        for (auto & e : cells) go(e.t);
        auto filtered = mito::mesh::filter<I>(*mesh);
        for (auto & f : filtered.cells()) {
            Tuple t = tuple(f);
            mc::require(simplex_name<I>(f.simplex()) == topo::name_of(t), "filter-nodes", "a cell of the filtered mesh "
                        "has its nodes in the wrong order");
            std::sort(t.begin(), t.end());
            got.insert(t);
        }
        mc::require(got == want, "filter", "the mesh of the %d-cells has %zu cells, %zu expected", I, got.size(), want.size());
        mc::require(filtered.nCells() == (int) want.size(), "filter", "size of the mesh of the %d-cells", I);
    }
    void check()
    {
        menu.clear();
        // the cells
        mc::require(mesh->nCells() == (int) cells.size(), "count", "the mesh has %d cells, %zu expected", mesh->nCells(), cells.size());
        std::map<cell_t *, Tuple> want;
        for (auto & e : cells) want[e.at] = e.t;
        int n = 0;
        for (auto & cell : mesh->cells()) {
            ++n;
            auto it = want.find(&cell);
            mc::require(it != want.end(), "cells", "the mesh visits a cell that it should not have");
            mc::require(tuple(cell) == it->second, "nodes", "cell %s now has nodes %s", str(it->second).c_str(), str(tuple(cell)).c_str());
            mc::require(simplex_name<N>(cell.simplex()) == topo::name_of(it->second), "simplex", "cell %s rides on another simplex",
                        str(it->second).c_str());
        }
        mc::require(n == (int) cells.size(), "cells", "the mesh visits %d cells, %zu expected", n, cells.size());
        std::set<int> got_nodes, want_nodes;
        std::unordered_set<node_t, mito::utilities::hash_function<node_t>> collected;
        mito::mesh::get_nodes(*mesh, collected);
        for (auto & x : collected) got_nodes.insert(index(x));
        for (auto & e : cells) want_nodes.insert(e.t.begin(), e.t.end());
        mc::require(got_nodes == want_nodes && collected.size() == want_nodes.size(), "get-nodes", "the mesh lists %zu nodes, %zu expected",
                    collected.size(), want_nodes.size());
        // the boundary: the faces that no cell has in the opposite orientation
        std::map<Name, int> faces;
        for (auto & e : cells)
            for (auto & f : topo::boundary(e.t)) ++faces[f];
        std::multiset<Name> bnd;
        for (auto & [f, k] : faces)
            if (!faces.count(f.flipped()))
                for (int i = 0; i < k; ++i) bnd.insert(f);
        int size = mito::mesh::boundary_size(*mesh);
        mc::require(size == (int) bnd.size(), "boundary-size", "the boundary is said to have %d cells, %zu expected", size, bnd.size());
        auto boundary = mito::mesh::boundary(*mesh);
        if constexpr (N == 1) {
            std::set<int> got, wantv;
            for (auto & x : boundary) got.insert(index(x));
            for (auto & f : bnd) wantv.insert(f.v[0]);
            mc::require(got == wantv && boundary.size() == wantv.size(), "boundary", "the boundary has %zu nodes, %zu expected", boundary.size(), wantv.size());
        } else {
            std::multiset<Name> got;
            for (auto & f : boundary.cells()) {
                got.insert(topo::name_of(tuple(f)));
                mc::require(simplex_name<N - 1>(f.simplex()) == topo::name_of(tuple(f)), "boundary-nodes", "a boundary cell has its nodes in the wrong order");
            }
            std::string s;
            for (auto & g : got) s += g.str();
            mc::require(got == bnd, "boundary", "the boundary is %s", s.c_str());
        }
        // faces in either orientation
        for (auto & [f, k] : faces)
            for (int sign : { 1, -1 }) {
                Name g = sign > 0 ? f : f.flipped();
                auto face = [&] {
                    if constexpr (N == 1) return mito::topology::topology().template simplex<0>(nodes[g.v[0]]->vertex(), g.sign);
                    else {
                        Tuple t = topo::tuple_of(g);
                        mito::topology::vertex_simplex_composition_t<N - 1> v;
                        for (int i = 0; i < N; ++i) v[i] = nodes[t[i]]->vertex();
                        return mito::topology::topology().template simplex<N - 1>(v);
                    }
                }();
                bool on = mesh->isOnBoundary(face);
                mc::require(on == !faces.count(g.flipped()), "on-boundary", "face %s: on the boundary? %d", g.str().c_str(), on);
            }
        if constexpr (N > 1) check_filter<1>();
        if constexpr (N > 2) check_filter<2>();
    }
    void finish() {}
    uint64_t hash()
    {
        std::multiset<Tuple> m;
        for (auto & e : cells) m.insert(e.t);
        uint64_t x = N * 10 + D + 100 * o.env;
        for (auto & t : m)
            for (int i : t) x = mc::mix(x, i + 1);
        return x;
    }
};

template <int N, int D>
static void run(const char * label, Options o, int depth)
{
    for (int env = 0; env < 3; ++env) {
        o.env = env;
        std::string l = mc::fmt("%s%s", label, env == 0 ? "" : env == 1 ? ",negative registered" : ",positive registered");
        mc::isolated(l, [&] { mc::explore(l, depth, [=] { return MeshWorld<N, D>(o); }); });
    }
}

// ---------------------------------------------------------------- many cells
template <int N>
struct BigWorld {
    using cell_t = mg::geometric_simplex_t<N, N>;
    big::Block<N> block;
    mg::coordinate_system_t<mg::cartesian::coordinates_t<N>> system;
    std::vector<mg::node_t<N>> nodes;
    std::map<mg::node_t<N>, int> number;
    mito::mesh::mesh_t<cell_t> mesh = mito::mesh::mesh<cell_t>();
    std::multiset<big::Cell<N>> cells;
    typename big::Block<N>::Faces faces;
    std::vector<cell_t *> at;
    std::vector<big::Cell<N>> of;

    explicit BigWorld(int n) : block(n)
    {
        for (auto & p : block.points) {
            if constexpr (N == 1) nodes.push_back(mg::node(system, { p[0] }));
            if constexpr (N == 2) nodes.push_back(mg::node(system, { p[0], p[1] }));
            if constexpr (N == 3) nodes.push_back(mg::node(system, { p[0], p[1], p[2] }));
            number[nodes.back()] = nodes.size() - 1;
        }
    }
    void insert(const big::Cell<N> & c)
    {
        typename cell_t::nodes_type n = [&]<size_t... J>(std::index_sequence<J...>) {
            return typename cell_t::nodes_type { nodes[c[J]]... };
        }(std::make_index_sequence<N + 1> {});
        at.push_back(&mesh.insert(n));
        of.push_back(c);
        cells.insert(c);
        block.faces(c, 1, faces);
        mc::transition();
    }
    void erase(size_t i)
    {
        mesh.erase(*at[i]);
        forget(i);
    }
    void forget(size_t i)
    {
        cells.erase(cells.find(of[i]));
        block.faces(of[i], -1, faces);
        at.erase(at.begin() + i);
        of.erase(of.begin() + i);
        mc::transition();
    }
    template <class C>
    auto tuple(const C & c)
    {
        std::array<int, C::n_vertices> t;
        int k = 0;
        for (auto & n : c.nodes()) {
            mc::require(number.count(n), "foreign-node", "a cell has a node from elsewhere");
            t[k++] = number[n];
        }
        return t;
    }
    void check(const std::string & when)
    {
        mc::trace();
        mc::state(mc::hash_str(mc::fmt("%d %d ", N, block.n) + when));
        mc::require(mesh.nCells() == (int) cells.size(), "count", "%s: the mesh has %d cells, %zu expected", when.c_str(), mesh.nCells(), cells.size());
        std::multiset<big::Cell<N>> got;
        for (auto & c : mesh.cells()) got.insert(tuple(c));
        mc::require(got == cells, "cells", "%s: the cells are not those that were inserted", when.c_str());
        auto want = block.boundary(faces);
        int size = mito::mesh::boundary_size(mesh);
        mc::require(size == (int) want.size(), "boundary-size", "%s: the boundary is said to have %d cells, %zu expected", when.c_str(), size, want.size());
        auto boundary = mito::mesh::boundary(mesh);
        if constexpr (N == 1) {
            std::set<int> g, w;
            for (auto & x : boundary) g.insert(number.at(x));
            for (auto & [v, s] : want) w.insert(v[0]);
            mc::require(g == w, "boundary", "%s: the boundary has %zu nodes, %zu expected", when.c_str(), g.size(), w.size());
        } else {
            std::multiset<std::pair<std::vector<int>, int>> g;
            for (auto & f : boundary.cells()) {
                auto t = tuple(f);
                std::vector<int> v(t.begin(), t.end());
                int s = block.sort(v);
                g.insert({ v, s });
            }
            mc::require(g == want, "boundary", "%s: the boundary has %zu cells, other than the %zu expected", when.c_str(), g.size(), want.size());
            auto filtered = mito::mesh::filter<N - 1>(mesh);
            mc::require(filtered.nCells() == (N + 1) * (int) cells.size(), "filter", "%s: %d faces of %zu cells", when.c_str(), filtered.nCells(), cells.size());
        }
        std::set<int> used;
        for (auto & c : cells) used.insert(c.begin(), c.end());
        std::unordered_set<mg::node_t<N>, mito::utilities::hash_function<mg::node_t<N>>> collected;
        mito::mesh::get_nodes(mesh, collected);
        mc::require(collected.size() == used.size(), "get-nodes", "%s: the mesh lists %zu nodes, %zu expected", when.c_str(), collected.size(), used.size());
    }
    void duplicates(bool topological)
    {
        if (topological) mesh.erase_topological_duplicates();
        else mesh.erase_geometrical_duplicates();
        std::set<cell_t *> left;
        for (auto & c : mesh.cells()) left.insert(&c);
        std::set<std::pair<std::vector<int>, int>> before, after;
        for (size_t i = at.size(); i-- > 0;) {
            std::vector<int> v(of[i].begin(), of[i].end());
            int s = block.sort(v);
            std::pair<std::vector<int>, int> key { v, topological ? 0 : s };
            before.insert(key);
            if (left.count(at[i])) mc::require(after.insert(key).second, "duplicates", "a duplicate is left");
            else forget(i);
        }
        mc::require(before == after, "duplicates", "%zu cells are left of %zu", after.size(), before.size());
    }
};
template <int N>
static void many(int n, int stride)
{
    mc::fork_case(mc::fmt("%d cells along each side in %d dimensions, by strides of %d", n, N, stride), [&] {
        BigWorld<N> w(n);
        auto list = w.block.cells;
        for (int r = 0; r < stride; ++r) {
            for (size_t i = r; i < list.size(); i += stride) w.insert(list[i]);
            w.check(mc::fmt("after inserting round %d", r));
        }
        // some go, and others come in their places, flipped
        for (size_t i = w.at.size(); i-- > 0;)
            if (i % stride == 0) w.erase(i);
        w.check("after erasing");
        for (size_t i = 0; i < list.size(); i += 2) {
            auto c = list[i];
            std::swap(c[0], c[1]);
            w.insert(c);
        }
        w.check("after inserting flips");
        for (size_t i = 0; i < list.size(); i += 3) w.insert(list[i]);
        w.check("after inserting again");
        w.duplicates(false);
        w.check("after erasing geometrical duplicates");
        w.duplicates(true);
        w.check("after erasing topological duplicates");
        while (!w.at.empty()) {
            for (int k = 0; k < 50 && !w.at.empty(); ++k) w.erase((w.at.size() - 1) * (stride % 2) / 2);
            if (w.at.size() % 100 == 0) w.check("while emptying it");
        }
        w.check("empty");
    });
}

int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C14");
    run<1, 1>("segments,D=1,V=3", { .nv = 3, .max_cells = 4 }, mc::pick(5, 6));
    run<1, 2>("segments,D=2,V=3", { .nv = 3, .max_cells = 3 }, mc::pick(4, 5));
    run<2, 2>("triangles,D=2,V=4", { .nv = 4, .max_cells = 4 }, mc::pick(4, 5));
    run<2, 3>("triangles,D=3,V=3", { .nv = 3, .all_orders = true, .max_cells = 3 }, mc::pick(4, 5));
    run<3, 3>("tetrahedra,V=5", { .nv = 5, .max_cells = 4 }, mc::pick(3, 4));
    for (int stride : { 1, 2, 7 }) {
        many<1>(mc::pick(1300, 5000), stride);
        many<2>(mc::pick(24, 50), stride);
        many<3>(mc::pick(6, 11), stride);
    }
    return mc::finish();
}
