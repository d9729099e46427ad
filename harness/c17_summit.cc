// C17: writing a mesh to a summit file and reading it back.
#include "mc.h"
#include "big.h"
#include <filesystem>
#include <mito/mesh.h>
#include <mito/io.h>
namespace mg = mito::geometry;
namespace ms = mito::io::summit;

static std::string base;    // the file (without suffix), in the working directory of this process

static std::string slurp(const std::string & name)
{
    std::ifstream f(name);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
// the coordinates to choose from
static const std::vector<double> & values()
{
    static const std::vector<double> v { 0., 1., -1., 0.1, 1. / 3, -2. / 7, 1e20, 123456789.125, -3e-5, 1e-13, M_PI * 1e5, 6.02214076e23, -0.000123456789012345678, 999999999999999., 4e-300, 0.30000000000000004 };
    return v;
}
static double close(double want, double got)
{
    char s[40];
    snprintf(s, sizeof s, "%.15g", want);
    return strtod(s, nullptr) == want ? want == got : std::abs(got - want) <= 5.1e-15 * std::abs(want);
}
struct Shape {
    int nv;
    std::vector<std::vector<int>> cells;
    std::vector<int> doubled = {};    // the cells that have nodes of their own on the points of the others
};
template <class coordT, int N>
struct Trip {
    static constexpr int D = coordT::dim;
    using cell_t = mg::geometric_simplex_t<N, D>;
    using mesh_t = mito::mesh::mesh_t<cell_t>;
    using node_t = mg::node_t<D>;
    using system_t = mg::coordinate_system_t<coordT>;
    using Coords = std::array<double, D>;
    using Cells = std::vector<std::vector<Coords>>;

    static Coords coords(const system_t & s, const node_t & x)
    {
        Coords r;
        auto & c = s.coordinates(x->point());
        for (int d = 0; d < D; ++d) r[d] = c[d];
        return r;
    }
    static Cells list(const system_t & s, const mesh_t & m)
    {
        Cells r;
        for (auto & c : m.cells()) {
            r.push_back({});
            for (auto & x : c.nodes()) r.back().push_back(coords(s, x));
            auto v = c.simplex()->vertices();
            std::array<mito::topology::vertex_t, N + 1> w;
            for (int i = 0; i <= N; ++i) w[i] = c.nodes()[i]->vertex();
            mc::require(mito::math::permutation_sign(v, w) == 1, "orientation", "a cell is not oriented as its nodes");
        }
        return r;
    }
    // the identity of nodes, as the first occurrence of each
    static std::vector<int> identity(const mesh_t & m, auto && what)
    {
        std::vector<std::decay_t<decltype(what(*(const node_t *) 0))>> seen;
        std::vector<int> r;
        for (auto & c : m.cells())
            for (auto & x : c.nodes()) {
                auto k = what(x);
                size_t i = std::find(seen.begin(), seen.end(), k) - seen.begin();
                if (i == seen.size()) seen.push_back(k);
                r.push_back(i);
            }
        return r;
    }
    static constexpr auto node = [](const node_t & x) { return x; };
    static constexpr auto vertex = [](const node_t & x) { return x->vertex(); };
    static constexpr auto point = [](const node_t & x) { return x->point(); };

    static mesh_t build(system_t & s, const Shape & sh, const std::vector<Coords> & x)
    {
        std::vector<node_t> n;
        for (int i = 0; i < sh.nv; ++i) {
            mito::tensor::vector_t<D> v;
            for (int d = 0; d < D; ++d) v[d] = x[i][d];
            n.push_back(mg::node(s, coordT(v)));
        }
        mesh_t m;
        int k = 0;
        for (auto & c : sh.cells) {
            bool own = std::count(sh.doubled.begin(), sh.doubled.end(), k++);
            [&]<size_t... I>(std::index_sequence<I...>) {
                m.insert({ (own ? node_t(n[c[I]]->vertex(), n[c[I]]->point()) : n[c[I]])... });
            }(std::make_index_sequence<N + 1> {});
        }
        return m;
    }
    // the words of a file, line by line, with its points numbered as the cells mention them
    static std::string renumbered(const std::string & text)
    {
        std::istringstream in(text);
        auto words = [&] {
            std::vector<std::string> w;
            std::string l;
            while (w.empty() && std::getline(in, l)) {
                std::istringstream s(l);
                for (std::string x; s >> x;) w.push_back(x);
            }
            return w;
        };
        auto join = [](const std::vector<std::string> & w) {
            std::string r;
            for (auto & x : w) r += x + " ";
            return r + "\n";
        };
        std::string out = join(words());
        auto sizes = words();
        out += join(sizes);
        mc::require(sizes.size() == 3, "heading", "the second line of the file has %zu words", sizes.size());
        std::vector<std::string> points;
        for (int i = 0; i < std::stoi(sizes[0]); ++i) points.push_back(join(words()));
        std::map<int, int> number;
        for (int c = 0; c < std::stoi(sizes[1]); ++c) {
            auto w = words();
            mc::require((int) w.size() >= N + 3, "cell", "a cell has %zu words in the file", w.size());
            for (int i = 1; i <= N + 1; ++i) {
                int id = std::stoi(w[i]);
                mc::require(id >= 1 && id <= (int) points.size(), "cell", "a cell has node %d in the file", id);
                auto [it, fresh] = number.insert({ id, (int) number.size() + 1 });
                if (fresh) out += points[id - 1];
                w[i] = std::to_string(it->second);
            }
            out += join(w);
        }
        return out + (words().empty() ? "" : "more");
    }
    static void compare(const Cells & want, const Cells & got, const char * which)
    {
        mc::require(want.size() == got.size(), "cells", "%s: %zu cells instead of %zu", which, got.size(), want.size());
        for (size_t c = 0; c < want.size(); ++c)
            for (int i = 0; i <= N; ++i)
                for (int d = 0; d < D; ++d)
                    mc::require(close(want[c][i][d], got[c][i][d]), "coordinates", "%s: coordinate %d of node %d of cell %zu is %.17g instead of %.17g",
                                which, d, i, c, got[c][i][d], want[c][i][d]);
    }
    static void run(const Shape & sh, const std::vector<Coords> & x, const std::string & type)
    {
        system_t s;
        auto m = build(s, sh, x);
        auto cells = list(s, m);
        std::string file = base + ".summit";
        ms::writer(base, m, s, type);
        std::string text = slurp(file);
        mc::require(list(s, m) == cells, "modified", "writing modified the mesh");
        // the heading and the length of the file
        {
            std::istringstream in(text);
            int d, nv, nc, nm;
            in >> d >> nv >> nc >> nm;
            auto ids = identity(m, point);
            int distinct = ids.empty() ? 0 : *std::max_element(ids.begin(), ids.end()) + 1;
            mc::require(d == D && nv == distinct && nc == (int) sh.cells.size(), "heading", "heading %d %d %d instead of %d %d %zu", d, nv, nc, D, distinct, sh.cells.size());
        }
        for (int how = 0; how < 2; ++how) {
            system_t t;
            std::ifstream in(file);
            auto r = how ? ms::reader<cell_t, ms::DG>(in, t) : ms::reader<cell_t, ms::CG>(in, t);
            mc::transition();
            auto label = how ? "read back as DG" : "read back";
            compare(cells, list(t, r), label);
            mc::require(identity(r, point) == identity(m, point), "points", "%s: the cells do not share the points that they shared", label);
            mc::require(identity(r, vertex) == identity(m, point), "vertices", "%s: the cells do not share the vertices that they shared", label);
            auto nodes = identity(r, node);
            if (how == 0)
                mc::require(nodes == identity(m, point), "nodes", "%s: the cells do not share the nodes that they shared", label);
            else
                for (size_t i = 0; i < nodes.size(); ++i) mc::require(nodes[i] == (int) i, "nodes", "%s: cells share a node", label);
            // once more: the same file
            ms::writer(base + "_again", r, t, type);
            std::string again = slurp(base + "_again.summit");
            mc::require(renumbered(again) == renumbered(text), "again", "%s and written again, the file differs", label);
        }
        mc::evaluation(sh.cells.size() > 1, mc::hash_str(mc::current));
    }
};
template <class coordT, int N>
static void shapes(const char * name, int nv, int max_cells, int nset)
{
    constexpr int D = coordT::dim;
    // all cells on {nv} nodes, in two opposite orders, and all sequences of them
    std::vector<std::vector<int>> menu;
    for (int mask = 0; mask < 1 << nv; ++mask)
        if (__builtin_popcount(mask) == N + 1) {
            std::vector<int> c;
            for (int i = 0; i < nv; ++i)
                if (mask >> i & 1) c.push_back(i);
            menu.push_back(c);
            std::swap(c[0], c[1]);
            menu.push_back(c);
        }
    std::function<void(std::vector<int>)> rec = [&](std::vector<int> seq) {
        for (int set = -2; set < nset; ++set)
            for (int doubled = 0; doubled < (seq.empty() ? 1 : 2); ++doubled)
                for (auto type : { "", "CPE3" }) {
                    std::string l = mc::fmt("%s cells", name);
                    for (int c : seq) l += mc::fmt(" %d", c);
                    l += mc::fmt(" coordinates %d%s type '%s'", set, doubled ? " last on its own nodes" : "", type);
                    mc::for_case(l, [&] {
                        Shape sh { nv, {} };
                        for (int c : seq) sh.cells.push_back(menu[c]);
                        if (doubled) sh.doubled.push_back(seq.size() - 1);
                        std::vector<std::array<double, D>> x(nv);
                        auto & v = values();
                        for (int i = 0; i < nv; ++i)
                            for (int d = 0; d < D; ++d) {
                                // different points at the same place: the first and the last, or all of them
                                int j = set == -2 ? 0 : set == -1 ? i % (nv - 1) : i;
                                x[i][d] = v[(std::max(set, 0) * 5 + j * (std::max(set, 0) % 3 + 1) + d * (std::max(set, 0) % 4)) % v.size()];
                            }
                        Trip<coordT, N>::run(sh, x, type);
                    });
                }
        if ((int) seq.size() < max_cells)
            for (size_t c = 0; c < menu.size(); ++c) {
                auto s = seq;
                s.push_back(c);
                rec(s);
            }
    };
    rec({});
}
// files written by others: white space, labels, notation
template <class coordT, int N>
static void foreign(const char * name)
{
    constexpr int D = coordT::dim;
    static const char * labels[] = { "1", "7", "steel" };
    static const char * gaps[] = { " ", "  ", "\t" };
    static const char * ends[] = { "\n", " \n", "\n\n" };
    static const char * formats[] = { "%.1f", "%.17g", "%e" };
    for (int unused = 0; unused < 3; ++unused)
        for (auto label : labels)
            for (auto gap : gaps)
                for (auto end : ends)
                    for (auto format : formats)
                        for (int nc = 0; nc < 4; ++nc)
                            mc::for_case(mc::fmt("file %s cells %d unused %d label %s gap %ld end %ld format %s", name, nc, unused, label, (long) (std::find(gaps, gaps + 3, gap) - gaps),
                                                 (long) (std::find(ends, ends + 3, end) - ends), format), [&] {
                                int nv = N + 1 + (nc > 1) + unused;
                                std::string t = mc::fmt("%d%s%d%s%d%s1%s", D, end, nv, gap, nc, gap, end);
                                std::vector<std::array<double, D>> x(nv);
                                for (int i = 0; i < nv; ++i) {
                                    for (int d = 0; d < D; ++d) {
                                        x[i][d] = 1.5 * i - 2.5 * d * i + d;
                                        t += mc::fmt(format, x[i][d]) + gap;
                                    }
                                    t += end;
                                }
                                typename Trip<coordT, N>::Cells want;
                                for (int c = 0; c < nc; ++c) {
                                    want.push_back({});
                                    t += mc::fmt("%d%s", N + 1, gap);
                                    for (int i = 0; i <= N; ++i) {
                                        int k = (c == 2 ? N + 1 - i : i + c % 2 * (nc > 1));
                                        t += mc::fmt("%d%s", k + 1, gap);
                                        want.back().push_back(x[k]);
                                    }
                                    t += std::string(label) + end;
                                }
                                std::ofstream(base + "_foreign.summit") << t;
                                typename Trip<coordT, N>::system_t s;
                                std::ifstream in(base + "_foreign.summit");
                                auto m = ms::reader<typename Trip<coordT, N>::cell_t>(in, s);
                                mc::transition();
                                Trip<coordT, N>::compare(want, Trip<coordT, N>::list(s, m), "file");
                                mc::evaluation(nc > 1, mc::hash_str(mc::current));
                            });
    mc::for_case(mc::fmt("no file %s", name), [&] {
        typename Trip<coordT, N>::system_t s;
        std::ifstream in(base + "_missing.summit");
        int r = 0;
        try {
            auto m = ms::reader<typename Trip<coordT, N>::cell_t>(in, s);
        } catch (const std::exception &) {
            r = 1;
        }
        mc::require(r == 1, "missing", "reading a file that does not exist did not fail");
    });
}
// meshes with hundreds of nodes and cells, some of them erased
template <class coordT, int N>
static void many(int n)
{
    constexpr int D = coordT::dim;
    for (int stride : { 1, 3, 100 })
        for (int keep : { 1, 2 })
            mc::for_case(mc::fmt("%d cells along each side in %d dimensions, by strides of %d, one in %d", n, N, stride, keep), [&] {
                big::Block<N> block(n);
                Shape sh { (int) block.points.size(), {} };
                for (int r = 0; r < stride; ++r)
                    for (size_t i = r; i < block.cells.size(); i += stride)
                        if (i % keep == 0) sh.cells.push_back({ block.cells[i].begin(), block.cells[i].end() });
                std::vector<std::array<double, D>> x;
                for (auto & p : block.points) {
                    x.push_back({});
                    for (int d = 0; d < D; ++d) x.back()[d] = p[d] / 7 + 0.125 * p[(d + 1) % 3];
                }
                Trip<coordT, N>::run(sh, x, "");
            });
}
int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C17");
    char cwd[] = "summit_XXXXXX";
    if (!mkdtemp(cwd)) return 2;
    base = std::string(cwd) + "/mesh";
    journal::info_t("mito.summit.mesh_reader").active(false);
    using namespace mg;
    shapes<cartesian::coordinates_t<1>, 1>("segments in 1D", 3, 3, mc::pick(4, 16));
    shapes<cartesian::coordinates_t<2>, 1>("segments in 2D", 3, 3, mc::pick(4, 16));
    shapes<cartesian::coordinates_t<3>, 1>("segments in 3D", 3, 3, mc::pick(4, 16));
    shapes<cartesian::coordinates_t<2>, 2>("triangles in 2D", 4, 3, mc::pick(4, 16));
    shapes<cartesian::coordinates_t<3>, 2>("triangles in 3D", 4, 3, mc::pick(4, 16));
    shapes<cartesian::coordinates_t<3>, 3>("tetrahedra", 5, 3, mc::pick(4, 16));
    shapes<polar::coordinates_t<2>, 2>("triangles in polar coordinates", 4, 2, mc::pick(2, 4));
    shapes<spherical::coordinates_t<3>, 3>("tetrahedra in spherical coordinates", 5, 2, mc::pick(2, 4));
    foreign<cartesian::coordinates_t<1>, 1>("segments in 1D");
    foreign<cartesian::coordinates_t<3>, 1>("segments in 3D");
    foreign<cartesian::coordinates_t<2>, 2>("triangles in 2D");
    foreign<cartesian::coordinates_t<3>, 3>("tetrahedra");
    many<cartesian::coordinates_t<1>, 1>(mc::pick(4500, 20000));
    many<cartesian::coordinates_t<2>, 2>(mc::pick(24, 70));
    many<cartesian::coordinates_t<3>, 2>(mc::pick(24, 40));
    many<cartesian::coordinates_t<3>, 3>(mc::pick(6, 12));
    int rc = mc::finish();
    std::filesystem::remove_all(cwd);
    return rc;
}
