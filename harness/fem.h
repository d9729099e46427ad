// What the checks of the finite element modules share: elements of every kind, and polynomials on simplices, written
// independently of the library.
#pragma once
#include "mc.h"
#include <mito/geometry.h>
#include <mito/mesh.h>
#include <mito/manifolds.h>
#include <mito/quadrature.h>
#include <mito/fields.h>
#include <mito/constraints.h>
#include <mito/discrete.h>
#include <mito/fem.h>
namespace mg = mito::geometry;
namespace md = mito::discrete;
namespace mf = mito::functions;
namespace mt = mito::tensor;
namespace fem = mito::fem;
namespace mq = mito::quadrature;

template <int N, int P> struct Kind {
    static constexpr int dim = N, degree = P;
    using X = mg::coordinates_t<N, mg::CARTESIAN>;
    using cell_t = mg::geometric_simplex_t<N, N>;
    using mesh_t = mito::mesh::mesh_t<cell_t>;
    using node_t = mg::node_t<N>;
    using system_t = mg::coordinate_system_t<X>;
    using element_t = fem::isoparametric_simplex_t<P, cell_t>;
    using reference_t = typename mg::reference_simplex_t<N>;
    using parametric_t = typename reference_t::parametric_coordinates_type;
    template <int r> using rule_t = mq::quadrature_rule_t<mq::GAUSS, reference_t, r>;
    static constexpr int n_nodes = N == 1 ? P + 1 : (P + 1) * (P + 2) / 2;
    static constexpr int max_rule = N == 1 ? 2 : 4;
};
using Seg1 = Kind<1, 1>;
using Tri1 = Kind<2, 1>;
using Tri2 = Kind<2, 2>;

using Point = std::array<double, 2>;
using Corners = std::vector<Point>;
// barycentric coordinates, in the order of the corners
using Bary = std::array<double, 3>;
template <class K> static typename K::X at(const Point & p)
{
    if constexpr (K::dim == 1) return typename K::X({ p[0] });
    else return typename K::X({ p[0], p[1] });
}
// the parametric coordinates of the point with these barycentric coordinates: on segments they run from the first
// node to the second, on triangles they are those of the first two nodes
template <class K> static typename K::parametric_t parametric(const Bary & b)
{
    if constexpr (K::dim == 1) return typename K::parametric_t({ b[1] });
    else return typename K::parametric_t({ b[0], b[1] });
}
template <class K> static Bary barycentric(const auto & xi)
{
    if constexpr (K::dim == 1) return { 1 - xi[0], xi[0], 0 };
    else return { xi[0], xi[1], 1 - xi[0] - xi[1] };
}
template <class K> static std::vector<Bary> lattice(int n)
{
    std::vector<Bary> r;
    for (int i = 0; i <= n; ++i) {
        if (K::dim == 1) r.push_back({ 1 - 1.0 * i / n, 1.0 * i / n, 0 });
        else
            for (int j = 0; j <= n - i; ++j) r.push_back({ 1.0 * i / n, 1.0 * j / n, 1.0 * (n - i - j) / n });
    }
    return r;
}
static Point position(const Corners & c, const Bary & b)
{
    Point x {};
    for (size_t a = 0; a < c.size(); ++a)
        for (int d = 0; d < 2; ++d) x[d] += b[a] * c[a][d];
    return x;
}
// twice the signed area, or the signed length
static double measure(const Corners & c)
{
    if (c.size() == 2) return c[1][0] - c[0][0];
    return (c[1][0] - c[0][0]) * (c[2][1] - c[0][1]) - (c[1][1] - c[0][1]) * (c[2][0] - c[0][0]);
}
// the gradients of the barycentric coordinates
static std::vector<Point> gradients(const Corners & c)
{
    double m = measure(c);
    if (c.size() == 2) return { { -1 / m, 0 }, { 1 / m, 0 } };
    std::vector<Point> g;
    for (int a = 0; a < 3; ++a) {
        const Point &p = c[(a + 1) % 3], &q = c[(a + 2) % 3];
        g.push_back({ (p[1] - q[1]) / m, (q[0] - p[0]) / m });
    }
    return g;
}
// polynomials in barycentric coordinates
struct Poly {
    std::map<std::array<int, 3>, double> terms;
    Poly() = default;
    Poly(double c) { terms[{ 0, 0, 0 }] = c; }
    static Poly l(int a)
    {
        Poly p;
        std::array<int, 3> e {};
        e[a] = 1;
        p.terms[e] = 1;
        return p;
    }
    friend Poly operator+(Poly p, const Poly & q)
    {
        for (auto & [e, c] : q.terms) p.terms[e] += c;
        return p;
    }
    friend Poly operator*(const Poly & p, const Poly & q)
    {
        Poly r;
        for (auto & [e, c] : p.terms)
            for (auto & [f, d] : q.terms) r.terms[{ e[0] + f[0], e[1] + f[1], e[2] + f[2] }] += c * d;
        return r;
    }
    friend Poly operator-(const Poly & p, const Poly & q) { return p + Poly(-1) * q; }
    double operator()(const Bary & b) const
    {
        double s = 0;
        for (auto & [e, c] : terms) {
            double t = c;
            for (int a = 0; a < 3; ++a)
                for (int k = 0; k < e[a]; ++k) t *= b[a];
            s += t;
        }
        return s;
    }
    Poly derivative(int a) const
    {
        Poly r;
        for (auto & [e, c] : terms)
            if (e[a]) {
                auto lower = e;
                --lower[a];
                r.terms[lower] += c * e[a];
            }
        return r;
    }
    // the derivative along x or y
    Poly derivative(const std::vector<Point> & g, int d) const
    {
        Poly r;
        for (size_t a = 0; a < g.size(); ++a) r = r + Poly(g[a][d]) * derivative((int) a);
        return r;
    }
    // the integral over the simplex of this (signed) measure
    double integral(int N, double m) const
    {
        auto factorial = [](int n) { double r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; };
        double s = 0;
        for (auto & [e, c] : terms) s += c * factorial(e[0]) * factorial(e[1]) * factorial(e[2]) / factorial(e[0] + e[1] + e[2] + N);
        return s * m;
    }
    int degree() const
    {
        int d = 0;
        for (auto & [e, c] : terms)
            if (c != 0) d = std::max(d, e[0] + e[1] + e[2]);
        return d;
    }
};
// the shape functions: corners first, then the middles of the edges 01, 12, 20
template <class K> static std::vector<Poly> shapes()
{
    std::vector<Poly> s;
    for (int a = 0; a <= K::dim; ++a) s.push_back(K::degree == 1 ? Poly::l(a) : Poly::l(a) * (Poly(2) * Poly::l(a) - Poly(1)));
    if (K::degree == 2)
        for (int a = 0; a < 3; ++a) s.push_back(Poly(4) * Poly::l(a) * Poly::l((a + 1) % 3));
    return s;
}
template <class K> static std::vector<Bary> places()
{
    std::vector<Bary> r;
    for (int a = 0; a <= K::dim; ++a) {
        Bary b {};
        b[a] = 1;
        r.push_back(b);
    }
    if (K::degree == 2)
        for (int a = 0; a < 3; ++a) {
            Bary b {};
            b[a] = b[(a + 1) % 3] = 0.5;
            r.push_back(b);
        }
    return r;
}
// x^i y^j on the simplex
static Poly monomial(const Corners & c, int i, int j)
{
    Poly x(0), y(0), r(1);
    for (size_t a = 0; a < c.size(); ++a) {
        x = x + Poly(c[a][0]) * Poly::l((int) a);
        y = y + Poly(c[a][1]) * Poly::l((int) a);
    }
    while (i--) r = r * x;
    while (j--) r = r * y;
    return r;
}
// the corresponding field
template <class K> static auto monomial_field(int i, int j)
{
    return mf::function([i, j](const typename K::X & x) {
        double r = 1;
        for (int k = 0; k < i; ++k) r *= x[0];
        if constexpr (K::dim == 2)
            for (int k = 0; k < j; ++k) r *= x[1];
        return r;
    });
}
template <int... I, class F> static void times(F && f, std::integer_sequence<int, I...>) { (f.template operator()<I>(), ...); }
template <int n, class F> static void times(F && f) { times(f, std::make_integer_sequence<int, n> {}); }
