// C25: function spaces and fields on them. Every set of cells of small grids, every choice of constraints.
#include "grids.h"
#ifndef FOCUS
#define FOCUS 1
#endif
static bool near(double a, double b, double scale) { return std::abs(a - b) <= 1e-11 * scale; }
template <class K, class Space> static void space(World<K> & w, const Space & fs, const std::set<Edge> & constrained)
{
    constexpr int n = K::n_nodes;
    using dof_t = md::discretization_node_t;
    // one element per cell, in the order of the mesh, with one dof per place
    std::map<Edge, dof_t> dofs;
    auto elements = w.elements(fs);
    for (size_t k = 0; k < w.cells.size(); ++k)
        for (int a = 0; a < n; ++a) {
            auto place = World<K>::place(w.cells[k], a);
            auto [it, fresh] = dofs.insert({ place, elements[k]->connectivity()[a] });
            mc::require(it->second == elements[k]->connectivity()[a], "shared", "the place between nodes %d and %d has two degrees of freedom", place[0], place[1]);
        }
    for (auto & [p, d] : dofs)
        for (auto & [q, e] : dofs) mc::require(p == q || !(d == e), "distinct", "two places have the same degree of freedom");
    // the map of the nodes
    int corners = 0;
    for (auto & [p, d] : dofs) {
        if (p[0] != p[1]) continue;
        ++corners;
        auto it = fs.node_map().find(w.nodes[p[0]]);
        mc::require(it != fs.node_map().end() && it->second == d, "map", "node %d maps to another degree of freedom", p[0]);
    }
    mc::require((int) fs.node_map().size() == corners, "map", "%zu nodes are mapped instead of %d", fs.node_map().size(), corners);
    // the constrained ones
    std::set<dof_t> want;
    for (auto & p : constrained) want.insert(dofs.at(p));
    mc::require(fs.constrained_nodes().size() == want.size(), "constrained", "%zu degrees of freedom are constrained instead of %zu", fs.constrained_nodes().size(), want.size());
    for (auto & d : fs.constrained_nodes()) mc::require(want.count(d), "constrained", "another degree of freedom is constrained");
    std::set<dof_t> set;
    fem::get_discretization_nodes(fs, set);
    mc::require(set.size() == dofs.size(), "dofs", "%zu degrees of freedom instead of %zu", set.size(), dofs.size());
    mc::transition();
    // fields
    auto u = fs.template fem_field<double>("u");
    const auto & U = u;
    mc::require(U.nodal_values().size() == (int) dofs.size() && U.nodal_values().name() == "u", "field", "the field has %d values at %zu degrees of freedom", U.nodal_values().size(), dofs.size());
    for (auto & [p, d] : dofs) mc::require(U(d) == 0, "field", "a value begins at %g", U(d));
    // arbitrary values: the field on an element is their combination, and goes over continuously
    std::map<Edge, double> value;
    int k = 1;
    for (auto & [p, d] : dofs) u(d) = value[p] = (k++ * 37 % 11) * 0.5 - 2;
    for (auto & [p, d] : dofs) mc::require(U(d) == value[p] && U.nodal_values()(d) == value[p], "field", "a value is %g instead of %g", U(d), value[p]);
    double total = 0;
    for (auto & [d, v] : U) total += v;
    for (auto & [p, v] : value) total -= v;
    mc::require(std::abs(total) < 1e-12, "field", "iteration yields other values");
    auto s = shapes<K>();
    std::map<std::pair<Edge, int>, double> trace;
    auto element = elements.begin();
    for (auto & c : w.cells) {
        const auto & e = **element;
        ++element;
        const auto local = U.localize(e), again = fem::localize(U, e);
        for (auto & b : lattice<K>(4)) {
            double v = local(parametric<K>(b)), x = 0;
            for (int a = 0; a < n; ++a) x += value[World<K>::place(c, a)] * s[a](b);
            mc::require(near(v, x, 20), "localize", "the field is %.15g instead of %.15g on an element", v, x);
            mc::require(again(parametric<K>(b)) == v, "localize", "localizing the field again yields another value");
            // continuity
            for (int i = 0; i <= K::dim; ++i)
                for (int j = 0; j < i; ++j) {
                    if (K::dim == 1 ? b[0] != 0 && b[1] != 0 : b[3 - i - j] != 0) continue;
                    if (K::dim == 1) {
                        int at = b[0] == 0 ? c[1] : c[0];
                        auto [it, fresh] = trace.insert({ { { at, at }, 0 }, v });
                        mc::require(near(it->second, v, 20), "continuity", "at node %d the field is %.15g and %.15g", at, it->second, v);
                    } else {
                        double t = c[i] < c[j] ? b[i] : b[j];
                        auto [it, fresh] = trace.insert({ { edge(c[i], c[j]), (int) std::lround(t * 4) }, v });
                        mc::require(near(it->second, v, 20), "continuity", "on edge %d-%d the field is %.15g and %.15g", c[i], c[j], it->second, v);
                    }
                }
        }
        mc::transition();
    }
    // fields of vectors
    auto vec = fs.template fem_field<mt::vector_t<2>>("vectors");
    for (auto & [p, d] : dofs) mc::require(vec(d)[0] == 0 && vec(d)[1] == 0, "field", "a vector begins elsewhere than at zero");
    for (auto & [p, d] : dofs) vec(d) = mt::vector_t<2> { value[p], -2 * value[p] };
    element = elements.begin();
    for (auto & c : w.cells) {
        const auto local = vec.localize(**element);
        ++element;
        for (auto & b : lattice<K>(2)) {
            double x = 0;
            for (int a = 0; a < n; ++a) x += value[World<K>::place(c, a)] * s[a](b);
            auto v = local(parametric<K>(b));
            mc::require(near(v[0], x, 20) && near(v[1], -2 * x, 40), "localize", "the vector field is (%.15g, %.15g) on an element", v[0], v[1]);
        }
    }
    // iterating over a field: each degree of freedom once, with its value
    {
        size_t visited = 0;
        auto & constant = std::as_const(vec);
        for (auto & [d, v] : constant) {
            auto it = std::find_if(dofs.begin(), dofs.end(), [&d](auto & x) { return x.second == d; });
            mc::require(it != dofs.end(), "field", "iterating yields a stranger");
            mc::require(v[0] == value[it->first] && v[1] == -2 * value[it->first], "field", "iterating yields another value");
            ++visited;
        }
        mc::require(visited == dofs.size(), "field", "iterating visits %zu of %zu degrees of freedom", visited, dofs.size());
        for (auto & [d, v] : vec) v *= 2.0, --visited;
        mc::require(visited == 0, "field", "iterating visits a different number of degrees of freedom");
        for (auto & [p, d] : dofs) mc::require(constant(d)[0] == 2 * value[p] && vec.nodal_values()(d)[1] == -4 * value[p], "field", "a value is not the one written");
    }
    // polynomials up to the degree of the elements are reproduced
    for (int i = 0; i <= K::degree; ++i)
        for (int j = 0; j <= (K::dim == 1 ? 0 : K::degree - i); ++j) {
            auto f = fs.template fem_field<double>("f");
            for (auto & [p, d] : dofs) f(d) = std::pow(w.at_place(p)[0], i) * std::pow(w.at_place(p)[1], j);
            element = elements.begin();
            for (auto & c : w.cells) {
                const auto local = f.localize(**element);
                ++element;
                auto p = monomial(w.corners(c), i, j);
                for (auto & b : lattice<K>(4)) {
                    double v = local(parametric<K>(b));
                    mc::require(near(v, p(b), 100 * std::pow(unit, i + j)), "reproduce", "x^%d y^%d is %.15g instead of %.15g", i, j, v, p(b));
                }
            }
            mc::transition();
        }
}
// norms of differences
template <class K, int r, class Space> static void norms(World<K> & w, const Space & fs)
{
    using rule_t = typename K::template rule_t<r>;
    constexpr auto q = rule_t();
    constexpr int n = K::n_nodes;
    auto s = shapes<K>();
    auto u = fs.template fem_field<double>("u");
    std::map<Edge, double> value;
    int k = 0;
    auto elements = w.elements(fs);
    auto element = elements.begin();
    for (auto & c : w.cells) {
        for (int a = 0; a < n; ++a) {
            auto p = World<K>::place(c, a);
            if (!value.count(p)) value[p] = (k++ * 7 % 5) * 0.5 - 1;
            u((*element)->connectivity()[a]) = value[p];
        }
        ++element;
    }
    auto v = fs.template fem_field<double>("v");
    element = elements.begin();
    for (auto & c : w.cells) {
        for (int a = 0; a < n; ++a) v((*element)->connectivity()[a]) = 2 * value[World<K>::place(c, a)] + 1;
        ++element;
    }
    // the squares of the norm, of the difference and of its gradient, by the rule or exactly
    auto integral = [&](const Poly & p, double m) {
        if (p.degree() <= r) return p.integral(K::dim, m);
        double t = 0;
        for (int i = 0; i < q.npoints; ++i) t += q.weight(i) * p(barycentric<K>(q.point(i)));
        return t * m / K::dim;
    };
    auto want = [&](auto && difference) {
        double l2 = 0, h1 = 0;
        for (auto & c : w.cells) {
            auto corners = w.corners(c);
            Poly uh(0);
            for (int a = 0; a < n; ++a) uh = uh + Poly(value[World<K>::place(c, a)]) * s[a];
            Poly p = difference(uh, corners);
            double m = measure(corners);
            l2 += integral(p * p, m);
            auto g = gradients(corners);
            for (int d = 0; d < K::dim; ++d) h1 += integral(p.derivative(g, d) * p.derivative(g, d), m);
        }
        return std::pair { std::sqrt(std::max(0.0, l2)), std::sqrt(std::max(0.0, l2 + h1)) };
    };
    auto compare = [&](const char * what, auto && a, auto && b, std::pair<double, double> x) {
        double l2 = fem::compute_l2_norm<rule_t>(fs, a, b), h1 = fem::compute_h1_norm<rule_t>(fs, a, b);
        double l = std::pow(unit, K::dim), h = l / (unit * unit);
        mc::require(std::abs(l2 - x.first) <= 1e-7 * std::sqrt(l) && near(l2 * l2, x.first * x.first, 100 * l + x.first * x.first), "l2", "the L2 norm of %s is %.15g instead of %.15g", what, l2, x.first);
        mc::require(std::abs(h1 - x.second) <= 1e-6 * std::sqrt(h) && near(h1 * h1, x.second * x.second, 1000 * h + x.second * x.second), "h1", "the H1 norm of %s is %.15g instead of %.15g", what, h1, x.second);
        mc::transition(2);
    };
    compare("the difference of two fields", u, v, want([](const Poly & p, const Corners &) { return Poly(-1) * p - Poly(1); }));
    compare("the difference of two fields", v, u, want([](const Poly & p, const Corners &) { return Poly(1) * p + Poly(1); }));
    compare("nothing", u, u, { 0, 0 });
    // very small and very large fields have norms like any other
    for (int power : { -60, 60 }) {
        auto us = fs.template fem_field<double>("us"), vs = fs.template fem_field<double>("vs");
        element = elements.begin();
        for (auto & c : w.cells) {
            for (int a = 0; a < n; ++a) {
                const auto & node = (*element)->connectivity()[a];
                us(node) = std::ldexp(u(node), power), vs(node) = std::ldexp(v(node), power);
            }
            ++element;
        }
        double l2 = fem::compute_l2_norm<rule_t>(fs, us, vs), h1 = fem::compute_h1_norm<rule_t>(fs, us, vs);
        double l2_u = std::ldexp(fem::compute_l2_norm<rule_t>(fs, u, v), power), h1_u = std::ldexp(fem::compute_h1_norm<rule_t>(fs, u, v), power);
        mc::require(std::abs(l2 - l2_u) <= 1e-7 * l2_u, "l2", "the L2 norm of the difference of fields 2^%d times as large is %.15g instead of %.15g", power, l2, l2_u);
        mc::require(std::abs(h1 - h1_u) <= 1e-7 * h1_u, "h1", "the H1 norm of the difference of fields 2^%d times as large is %.15g instead of %.15g", power, h1, h1_u);
        mc::transition(2);
    }
    const auto x = mf::component<typename K::X, 0>;
    const auto y = mf::component<typename K::X, K::dim - 1>;
    const auto f = x * y;
    compare("the difference from x y", u, f, want([](const Poly & p, const Corners & c) { return p - (K::dim == 1 ? monomial(c, 2, 0) : monomial(c, 1, 1)); }));
    compare("the difference from x y", f, u, want([](const Poly & p, const Corners & c) { return p - (K::dim == 1 ? monomial(c, 2, 0) : monomial(c, 1, 1)); }));
    const auto g = 3.0 * x + 1.0;
    compare("the difference of two functions", f, g, want([](const Poly & p, const Corners & c) { return (K::dim == 1 ? monomial(c, 2, 0) : monomial(c, 1, 1)) - Poly(3) * monomial(c, 1, 0) - Poly(1); }));
}
template <class K> static void run(const char * name, const Grid & grid, const std::vector<Cell> & cells, int which)
{
    const auto sides = ::sides<K>(cells, which > 0);
    // which: 3 = two patterns of the sides;
    // 0 = the whole boundary; 1 = every subset of the sides (also interior ones); 2 = every single side, and none
    std::vector<uint64_t> masks;
    if (which == 1)
        for (uint64_t m = 0; m < 1ull << sides.size(); ++m) masks.push_back(m);
    else if (which == 2) {
        masks.push_back(0);
        for (size_t i = 0; i < sides.size(); ++i) masks.push_back(1ull << i);
    } else if (which == 3) masks = { 0x8000000000000001ull, 0x5555555555555555ull };
    else masks.push_back(whole(sides));
    for (auto mask : masks) {
        auto label = name + str(cells) + mc::fmt(" sides %#llx of %zu", (unsigned long long) mask, sides.size());
        mc::for_case(label, [&] {
            World<K> w(grid, cells);
            const auto constrained = places_on<K>(sides, mask);
            auto zero = mf::zero<typename K::X>;
            auto manifold = mito::manifolds::manifold(w.mesh, w.system);
            auto go = [&](const auto & domain) {
                auto constraints = mito::constraints::dirichlet_bc(domain, zero);
                auto fs = fem::function_space<typename K::element_t>(manifold, constraints);
                mc::require(&fs.constraints() == &constraints && &constraints.domain() == &domain, "constraints", "the constraints are others");
                space<K>(w, fs, constrained);
                if (mask == 0 || which == 0) {
                    norms<K, 2>(w, fs);
                    if constexpr (K::dim == 2) norms<K, 4>(w, fs);
                }
            };
            if constexpr (K::dim == 1) go(domain(w, sides, mask));
            else if (which == 0) go(mito::mesh::boundary(w.mesh));
            else go(domain(w, sides, mask));
            mc::evaluation(!cells.empty(), mc::hash_str(label));
        });
    }
}
template <class K> static void all(const char * name, const Grid & grid)
{
    int n = (int) grid.cells.size();
    for (int set = 1; set < 1 << n; ++set) {
        std::vector<Cell> cells;
        for (int i = 0; i < n; ++i)
            if (set >> i & 1) cells.push_back(grid.cells[i]);
        // small meshes: any constraints, and any numbering of the nodes of each cell
        int size = (int) cells.size();
        if (K::dim == 1) run<K>(name, grid, cells, 1);
        else {
            run<K>(name, grid, cells, 0);
            if (size <= mc::pick(3, 4)) {
                int total = 1;
                for (int i = 0; i < size; ++i) total *= 3;
                for (int turn = 0; turn < total; ++turn) {
                    auto turned = cells;
                    int t = turn;
                    for (auto & c : turned) {
                        std::rotate(c.begin(), c.begin() + t % 3, c.end());
                        t /= 3;
                    }
                    run<K>(name, grid, turned, turn == 0 && size <= mc::pick(2, 3) ? 1 : 2);
                }
            } else if (size <= mc::pick(6, 8)) run<K>(name, grid, cells, 2);
        }
        // the other order of the cells
        std::reverse(cells.begin(), cells.end());
        if (size > 1) run<K>(name, grid, cells, K::dim == 1 ? 2 : 0);
    }
}
int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C25");
#if FOCUS == 1
    all<Seg1>("linear segments", LINE);
    all<Tri1>("linear triangles", SQUARE);
    for (int stride : { 1, 7 }) {
        auto line = turned(many_cells<1>(mc::pick(1100, 3000), stride)), square = turned(many_cells<2>(mc::pick(24, 40), stride));
        auto text = mc::fmt("by strides of %d, linear segments", stride);
        run<Seg1>(text.c_str(), line, line.cells, 3);
        text = mc::fmt("by strides of %d, linear triangles", stride);
        run<Tri1>(text.c_str(), square, square.cells, 3);
        run<Tri1>(text.c_str(), square, square.cells, 0);
    }
    // in the other quadrants
    for (Point at : { Point { -1.0625, -1.125 }, Point { -7, 0.5 }, Point { 0.25, -6 }, Point { -6, -7 } }) {
        const auto line = shifted(LINE, at), square = shifted(SQUARE, at);
        run<Seg1>(mc::fmt("shifted by %g, linear segments", at[0]).c_str(), line, line.cells, 2);
        run<Tri1>(mc::fmt("shifted by %g %g, linear triangles", at[0], at[1]).c_str(), square, square.cells, 2);
    }
    for (double u : { 1e-3, 1e-7 }) {
        unit = u;
        const auto line = scaled(LINE), square = scaled(SQUARE);
        run<Seg1>(mc::fmt("in units of %g, linear segments", u).c_str(), line, line.cells, 2);
        run<Tri1>(mc::fmt("in units of %g, linear triangles", u).c_str(), square, square.cells, 2);
    }
#else
    for (Point at : { Point { -1.0625, -1.125 }, Point { -7, 0.5 }, Point { 0.25, -6 }, Point { -6, -7 } }) {
        const auto square = shifted(SQUARE, at);
        run<Tri2>(mc::fmt("shifted by %g %g, quadratic triangles", at[0], at[1]).c_str(), square, square.cells, 2);
    }
    for (double u : { 1e-3, 1e-7 }) {
        unit = u;
        const auto square = scaled(SQUARE);
        run<Tri2>(mc::fmt("in units of %g, quadratic triangles", u).c_str(), square, square.cells, 2);
    }
    unit = 1;
    all<Tri2>("quadratic triangles", SQUARE);
    for (int stride : { 1, 7 }) {
        auto square = turned(many_cells<2>(mc::pick(16, 30), stride));
        auto text = mc::fmt("by strides of %d, quadratic triangles", stride);
        run<Tri2>(text.c_str(), square, square.cells, 3);
        run<Tri2>(text.c_str(), square, square.cells, 0);
    }
#endif
    return mc::finish();
}
