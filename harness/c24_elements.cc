// C24: finite elements. Every element on a lattice of corners, every shape function, every block with every rule.
#include "fem.h"

#ifndef FOCUS
#define FOCUS 1
#endif
template <class K> struct Element {
    typename K::system_t system;
    std::vector<typename K::node_t> nodes;
    std::optional<typename K::cell_t> cell;
    std::array<md::discretization_node_t, K::n_nodes> dofs;
    std::optional<typename K::element_t> element;
    Corners corners;
    Element(const Corners & c) : corners(c)
    {
        for (auto & p : c) nodes.push_back(mg::node(system, at<K>(p)));
        if constexpr (K::dim == 1) cell.emplace(mg::segment<1>({ nodes[0], nodes[1] }));
        else cell.emplace(mg::triangle<2>({ nodes[0], nodes[1], nodes[2] }));
        element.emplace(*cell, system, dofs);
    }
};
static bool near(double a, double b, double scale) { return std::abs(a - b) <= 1e-12 * scale; }
// the shape functions and the map
template <class K> static void shape(const Element<K> & E)
{
    const auto & e = *E.element;
    auto want = shapes<K>();
    auto grads = gradients(E.corners);
    double m = measure(E.corners), size = 0;
    for (auto & p : E.corners) size = std::max({ size, std::abs(p[0]), std::abs(p[1]) });
    double steep = 0;
    for (auto & g : grads) steep = std::max({ steep, std::abs(g[0]), std::abs(g[1]) });
    mc::require(&e.cell() == &*E.cell, "cell", "the element is on another cell");
    for (int a = 0; a < K::n_nodes; ++a) mc::require(e.connectivity()[a] == E.dofs[a], "connectivity", "node %d is another", a);
    const auto map = e.parametrization();
    const auto J = e.jacobian();
    for (auto & b : lattice<K>(mc::pick(3, 6))) {
        auto xi = parametric<K>(b);
        auto x = position(E.corners, b);
        double sum = 0;
        Point total {};
        times<K::n_nodes>([&]<int a>() {
            double v = e.template shape<a>()(xi);
            sum += v;
            mc::require(near(v, want[a](b), 4), "shape", "shape function %d is %.15g instead of %.15g at (%g, %g, %g)", a, v, want[a](b), b[0], b[1], b[2]);
            auto g = e.template gradient<a>()(xi);
            for (int d = 0; d < K::dim; ++d) {
                double w = want[a].derivative(grads, d)(b);
                mc::require(near(g[d], w, 40 * steep), "gradient", "the gradient of shape function %d has component %d %.15g instead of %.15g at (%g, %g, %g)", a, d, g[d], w, b[0], b[1], b[2]);
                total[d] += g[d];
            }
        });
        mc::require(near(sum, 1, 4), "unity", "the shape functions add up to %.15g", sum);
        for (int d = 0; d < K::dim; ++d) mc::require(near(total[d], 0, 100 * steep), "unity", "their gradients add up to %.15g", total[d]);
        auto y = map(xi);
        for (int d = 0; d < K::dim; ++d) mc::require(near(y[d], x[d], 4 * size), "map", "component %d of the point is %.15g instead of %.15g", d, (double) y[d], x[d]);
        double det = mt::determinant(J(xi));
        mc::require(near(det, m, 20 * size * size + 20 * size * (K::dim == 1)), "jacobian", "the determinant is %.15g instead of %.15g", det, m);
        mc::transition();
    }
    auto where = places<K>();
    for (int b = 0; b < K::n_nodes; ++b)
        times<K::n_nodes>([&]<int a>() {
            double v = e.template shape<a>()(parametric<K>(where[b]));
            mc::require(near(v, a == b, 1), "nodal", "shape function %d is %.15g at node %d", a, v, b);
        });
}
// integrals over the element, by the points of a rule
template <class K, int r> static double sum(const Poly & p, double m)
{
    constexpr auto q = typename K::template rule_t<r>();
    double s = 0;
    for (int i = 0; i < q.npoints; ++i) s += q.weight(i) * p(barycentric<K>(q.point(i)));
    return s * m / (K::dim == 1 ? 1 : 2);
}
template <class K, int r> static double integral(const Poly & p, double m)
{
    double s = sum<K, r>(p, m);
    if (p.degree() <= r) return p.integral(K::dim, m);
    return s;
}
// a function that does not live on, and whose place is overwritten
template <class F> struct Passing {
    alignas(F) unsigned char place[sizeof(F)];
    const F * f;
    Passing(const F & g) { f = new (place) F(g); }
    const F & operator*() const { return *f; }
    void pass()
    {
        f->~F();
        for (volatile unsigned char * c = place; c != place + sizeof(F); ++c) *c = 0;
    }
};
template <class K, int r> static void blocks(const Element<K> & E)
{
    using rule_t = typename K::template rule_t<r>;
    using element_t = typename K::element_t;
    constexpr int n = K::n_nodes;
    const auto & e = *E.element;
    auto s = shapes<K>();
    auto grads = gradients(E.corners);
    double m = measure(E.corners), M = std::abs(m);
    double steep = 0, size = 1e-300;
    for (auto & g : grads) steep = std::max({ steep, std::abs(g[0]), std::abs(g[1]) });
    for (auto & p : E.corners) size = std::max({ size, std::abs(p[0]), std::abs(p[1]) });
    auto mass_block = fem::blocks::mass_block<element_t, rule_t>();
    auto stiffness_block = fem::blocks::grad_grad_block<element_t, rule_t>();
    for (int again = 0; again < 2; ++again) {
        auto mass = mass_block.compute(e);
        auto stiffness = stiffness_block.compute(e);
        for (int a = 0; a < n; ++a)
            for (int b = 0; b < n; ++b) {
                double w = integral<K, r>(s[a] * s[b], m), k = 0;
                for (int d = 0; d < K::dim; ++d) k += integral<K, r>(s[a].derivative(grads, d) * s[b].derivative(grads, d), m);
                double g = mass[{ a, b }], h = stiffness[{ a, b }];
                mc::require(near(g, w, 4 * M), "mass", "entry (%d, %d) of the mass matrix of degree %d is %.15g instead of %.15g", a, b, r, g, w);
                mc::require(near(h, k, 200 * M * steep * steep), "stiffness", "entry (%d, %d) of the stiffness matrix of degree %d is %.15g instead of %.15g", a, b, r, h, k);
            }
        mc::transition(2);
    }
    for (int i = 0; i <= r; ++i)
        for (int j = 0; j <= (K::dim == 1 ? 0 : r - i); ++j) {
            const auto f = monomial_field<K>(i, j);
            auto p = monomial(E.corners, i, j);
            double scale = std::pow(size, i + j);
            auto source_block = fem::blocks::source_term_block<element_t, rule_t>(f);
            auto load = source_block.compute(e);
            // blocks keep the function they are made with
            Passing field(f);
            auto kept = fem::blocks::source_term_block<element_t, rule_t>(*field);
            field.pass();
            auto again = kept.compute(e);
            for (int a = 0; a < n; ++a) mc::require(again[{ a }] == load[{ a }], "source", "entry %d of the load by x^%d y^%d is another once the field has gone", a, i, j);
            for (int a = 0; a < n; ++a) {
                double w = integral<K, r>(p * s[a], m);
                mc::require(near(load[{ a }], w, 20 * M * scale), "source", "entry %d of the load by x^%d y^%d of degree %d is %.15g instead of %.15g", a, i, j, r, load[{ a }], w);
            }
            // the field on the element
            const auto local = fem::localize(f, e);
            for (auto & b : lattice<K>(3)) {
                double v = local(parametric<K>(b));
                mc::require(near(v, p(b), 20 * scale), "localize", "x^%d y^%d is %.15g instead of %.15g on the element", i, j, v, p(b));
            }
            auto norm_block = fem::blocks::l2_norm_block<element_t, rule_t>(local);
            double v = norm_block.compute(e), w = integral<K, r>(p * p, m);
            Passing function(local);
            auto kept_norm = fem::blocks::l2_norm_block<element_t, rule_t>(*function);
            function.pass();
            double u = kept_norm.compute(e);
            mc::require(u == v, "norm", "the square of x^%d y^%d integrates to %.15g instead of %.15g once the function has gone", i, j, u, v);
            mc::require(near(v, w, 20 * M * scale * scale), "norm", "the square of x^%d y^%d integrates by degree %d to %.15g instead of %.15g", i, j, r, v, w);
            mc::transition(3);
        }
    // norms of the shape functions
    times<n>([&]<int a>() {
        const auto phi = e.template shape<a>();
        auto norm_block = fem::blocks::l2_norm_block<element_t, rule_t>(phi);
        double v = norm_block.compute(e), w = integral<K, r>(s[a] * s[a], m);
        mc::require(near(v, w, 20 * M), "norm", "the square of shape function %d integrates to %.15g instead of %.15g", a, v, w);
    });
}
// weak forms are the sums of their blocks
template <class K> static void weakforms(const Element<K> & E, int depth)
{
    using rule_t = typename K::template rule_t<2>;
    using element_t = typename K::element_t;
    const auto & e = *E.element;
    auto mass = fem::blocks::mass_block<element_t, rule_t>();
    auto stiffness = fem::blocks::grad_grad_block<element_t, rule_t>();
    const auto f = monomial_field<K>(1, 0);
    const auto g = monomial_field<K>(0, 0);
    auto load = fem::blocks::source_term_block<element_t, rule_t>(f);
    auto weight = fem::blocks::source_term_block<element_t, rule_t>(g);
    int total = 1;
    for (int d = 0; d <= depth; ++d, total *= 4)
        for (int code = 0; code < total; ++code) {
            auto form = fem::weakform<element_t>();
            double k[4] = {};
            int c = code;
            for (int i = 0; i <= d; ++i) {
                // what it yields between the additions
                auto [A, b] = form.compute_blocks(e);
                auto M = mass.compute(e), S = stiffness.compute(e);
                auto L = load.compute(e), W = weight.compute(e);
                for (int p = 0; p < K::n_nodes; ++p) {
                    for (int q = 0; q < K::n_nodes; ++q) {
                        double w = k[0] * M[{ p, q }] + k[1] * S[{ p, q }], scale = k[0] * std::abs(M[{ p, q }]) + k[1] * std::abs(S[{ p, q }]);
                        mc::require(near(A[{ p, q }], w, 4 * scale), "weakform", "entry (%d, %d) of %g mass and %g stiffness blocks is %.15g instead of %.15g", p, q, k[0], k[1], A[{ p, q }], w);
                    }
                    double w = k[2] * L[{ p }] + k[3] * W[{ p }], scale = k[2] * std::abs(L[{ p }]) + k[3] * std::abs(W[{ p }]);
                    mc::require(near(b[{ p }], w, 4 * scale), "weakform", "entry %d of %g and %g source blocks is %.15g instead of %.15g", p, k[2], k[3], b[{ p }], w);
                }
                mc::transition();
                if (i == d) break;
                int op = c % 4;
                c /= 4;
                ++k[op];
                if (op == 0) form.add_block(mass);
                if (op == 1) form.add_block(stiffness);
                if (op == 2) form.add_block(load);
                if (op == 3) form.add_block(weight);
            }
        }
}
template <class K> static void all(const char * name, const std::vector<Corners> & menu)
{
    for (size_t i = 0; i < menu.size(); ++i) {
        std::string label = name;
        for (auto & p : menu[i]) label += K::dim == 1 ? mc::fmt(" %g", p[0]) : mc::fmt(" (%g, %g)", p[0], p[1]);
        mc::for_case(label, [&] {
            Element<K> E(menu[i]);
            shape(E);
            blocks<K, 1>(E);
            blocks<K, 2>(E);
            if constexpr (K::dim == 2) {
                blocks<K, 3>(E);
                blocks<K, 4>(E);
            }
            weakforms(E, i % 16 ? 2 : mc::pick(4, 5));
            mc::evaluation(true, mc::hash_str(label));
        });
    }
}
int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C24");
    std::vector<Corners> segments, triangles;
    std::vector<double> xs { -2, -0.5, 0, 0.25, 1, 1.0625, 3.5, 1000 };
    for (double u : { 1e-9, 1e-5, 1e6 }) segments.push_back({ { 0.5 * u, 0 }, { 2 * u, 0 } }), segments.push_back({ { u, 0 }, { -u, 0 } });
    for (double a : xs)
        for (double b : xs)
            if (a != b) segments.push_back({ { a, 0 }, { b, 0 } });
    // all triangles on a distorted grid, and small and large ones, and far away
    std::vector<Point> grid;
    int n = mc::pick(3, 4);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) grid.push_back({ i + (j == 1 ? 0.25 : 0) - 0.5, 1.5 * j - (i == 2 ? 0.375 : 0) });
    auto usable = [](const Corners & c) {
        double longest = 0;
        for (int a = 0; a < 3; ++a) longest = std::max(longest, std::pow(c[a][0] - c[(a + 1) % 3][0], 2) + std::pow(c[a][1] - c[(a + 1) % 3][1], 2));
        return std::abs(measure(c)) > 0.05 * longest;
    };
    for (auto & p : grid)
        for (auto & q : grid)
            for (auto & r : grid)
                if (Corners c { p, q, r }; usable(c)) triangles.push_back(c);
    for (double scale : { 1e-9, 1e-6, 1e-3, 64.0, 1e6 })
        for (int k = 0; k < 3; ++k) {
            Corners c { { 0.5, 0.25 }, { 2, 0.5 }, { 1, 1.75 } };
            std::rotate(c.begin(), c.begin() + k, c.end());
            for (auto & p : c) p = { p[0] * scale, p[1] * scale };
            triangles.push_back(c);
        }
    // in the other quadrants
    for (Point at : { Point { -2, -1.5 }, Point { -20, 3 }, Point { 5, -70 }, Point { -9, -40 } })
        for (int k = 0; k < 3; ++k) {
            Corners c { { 0.5, 0.25 }, { 2, 0.5 }, { 1, 1.75 } };
            std::rotate(c.begin(), c.begin() + k, c.end());
            for (auto & p : c) p = { p[0] + at[0], p[1] + at[1] };
            triangles.push_back(c);
            segments.push_back({ { c[0][0], 0 }, { c[1][0], 0 } });
        }
#if FOCUS == 1
    all<Seg1>("linear segment", segments);
    all<Tri1>("linear triangle", triangles);
#else
    all<Tri2>("quadratic triangle", triangles);
#endif
    return mc::finish();
}
