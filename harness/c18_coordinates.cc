// C18: coordinates. Every pair of points (and every vector) of a lattice, against positions in space
// computed here.
#include "mc.h"
#include <mito/geometry.h>
namespace mg = mito::geometry;
using V = std::array<double, 3>;
static V add(V a, V b, double s = 1) { return { a[0] + s * b[0], a[1] + s * b[1], a[2] + s * b[2] }; }
static double dot(V a, V b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
// the unit of length, and lengths compared relative to it
static double unit = 1;
static bool near(double a, double b, double s = 0) { return std::abs(a - b) <= 1e-12 * (5 * unit + s); }
static bool near(V a, V b) { return near(a[0], b[0], std::abs(b[0])) && near(a[1], b[1], std::abs(b[1])) && near(a[2], b[2], std::abs(b[2])); }
#define STR(a) mc::fmt("(%g %g %g)", a[0], a[1], a[2]).c_str()

template <int D> using C = mg::cartesian::coordinates_t<D>;
using P = mg::polar::coordinates_t<2>;
using S = mg::spherical::coordinates_t<3>;

template <int D> static V pos(const C<D> & x) { V r {}; for (int d = 0; d < D; ++d) r[d] = x[d]; return r; }
static V pos(const P & x) { return { x[0] * std::cos(x[1]), x[0] * std::sin(x[1]), 0 }; }
static V pos(const S & x) { return { x[0] * std::sin(x[1]) * std::cos(x[2]), x[0] * std::sin(x[1]) * std::sin(x[2]), x[0] * std::cos(x[1]) }; }
// the orthonormal frame at a point
template <int D> static std::array<V, 3> frame(const C<D> &) { return { V { 1, 0, 0 }, V { 0, 1, 0 }, V { 0, 0, 1 } }; }
static std::array<V, 3> frame(const P & x) { return { V { std::cos(x[1]), std::sin(x[1]), 0 }, V { -std::sin(x[1]), std::cos(x[1]), 0 }, V {} }; }
static std::array<V, 3> frame(const S & x)
{
    double s = std::sin(x[1]), c = std::cos(x[1]), cp = std::cos(x[2]), sp = std::sin(x[2]);
    return { V { s * cp, s * sp, c }, V { c * cp, c * sp, -s }, V { -sp, cp, 0 } };
}
template <class T> static std::string str(const T & x)
{
    std::string s = "(";
    for (int d = 0; d < T::dim; ++d) s += mc::fmt(d ? " %g" : "%g", x[d]);
    return s + ")";
}
// sensible points have a frame (not at the origin, nor on the axis)
template <class T>
static void affine(const char * name, const std::vector<T> & sensible, const std::vector<T> & all, const std::vector<V> & vectors)
{
    constexpr int D = T::dim;
    for (auto & A : sensible) {
        mc::for_case(mc::fmt("%s from %s", name, str(A).c_str()), [&] {
            auto F = frame(A);
            for (auto & B : all) {
                V ab = add(pos(B), pos(A), -1);
                auto v = B - A;
                for (int d = 0; d < D; ++d)
                    mc::require(near(v[d], dot(ab, F[d]), std::abs(B[0]) + std::abs(A[0])), "difference", "component %d of %s - %s is %g instead of %g", d, str(B).c_str(), str(A).c_str(), v[d], dot(ab, F[d]));
                T C1 = A + v;
                mc::require(near(pos(C1), pos(B)), "sum of difference", "A + (B - A) is %s for A = %s, B = %s", str(C1).c_str(), str(A).c_str(), str(B).c_str());
                mc::require(near(mg::distance(A, B), std::sqrt(dot(ab, ab)), std::sqrt(dot(ab, ab))), "distance", "distance %g from %s to %s", mg::distance(A, B), str(A).c_str(), str(B).c_str());
                bool equal = A == B, same = true;
                for (int d = 0; d < D; ++d) same = same && A[d] == B[d];
                mc::require(equal == same && (B == A) == same, "equal", "%s == %s is %d", str(A).c_str(), str(B).c_str(), equal);
                // an order: by the first coordinate, then the next
                bool less = false, decided = false;
                for (int d = 0; d < D && !decided; ++d)
                    if (A[d] != B[d]) less = A[d] < B[d], decided = true;
                mc::require((A < B) == less, "order", "%s < %s is %d", str(A).c_str(), str(B).c_str(), A < B);
                mc::evaluation(!same, mc::mix(mc::hash_str(mc::current), &B - all.data()));
            }
            for (auto & w : vectors) {
                mito::tensor::vector_t<D> v;
                for (int d = 0; d < D; ++d) v[d] = w[d];
                V want = pos(A);
                for (int d = 0; d < D; ++d) want = add(want, F[d], w[d]);
                T B = A + v;
                mc::require(near(pos(B), want), "sum", "%s + %s is %s", str(A).c_str(), STR(w), str(B).c_str());
                T B2 = A;
                auto & ret = (B2 += v);
                mc::require(&ret == &B2 && near(pos(B2), want), "+=", "%s += %s gives %s", str(A).c_str(), STR(w), str(B2).c_str());
                auto u = B - A;
                for (int d = 0; d < D; ++d)
                    mc::require(near(u[d], w[d], 5 * unit), "difference of sum", "(A + v) - A is not v for A = %s, v = %s", str(A).c_str(), STR(w));
                mc::evaluation(true, mc::mix(mc::hash_str(mc::current), 7919 + (&w - vectors.data())));
            }
        });
    }
}
template <class T, class U>
static void transforms(const char * name, const std::vector<T> & points)
{
    for (auto & A : points)
        mc::for_case(mc::fmt("%s %s", name, str(A).c_str()), [&] {
            U B = mg::transform_coordinates<U>(A);
            mc::require(near(pos(B), pos(A)), "position", "%s is transformed to %s", str(A).c_str(), str(B).c_str());
            T A2 = mg::transform_coordinates<T>(B);
            mc::require(near(pos(A2), pos(A)), "position", "%s is transformed back to %s", str(A).c_str(), str(A2).c_str());
            if constexpr (!std::is_same_v<U, C<T::dim>>) {
                mc::require(B[0] >= 0, "range", "radius %g", B[0]);
                if (T::dim == 2) mc::require(std::abs(B[1]) <= M_PI, "range", "angle %g", B[1]);
                if (T::dim == 3) mc::require(B[1] >= 0 && B[1] <= M_PI && std::abs(B[2]) <= M_PI, "range", "angles %g %g", B[1], B[2]);
            }
            mc::evaluation(true, mc::hash_str(mc::current));
        });
}
// coordinate systems: histories of placing points, and looking them up
template <class T>
struct SystemWorld {
    using system_t = mg::coordinate_system_t<T>;
    static constexpr int D = T::dim;
    std::vector<T> menu;
    std::unique_ptr<system_t> system = std::make_unique<system_t>();
    std::vector<std::pair<mg::point_t<D>, T>> placed;
    explicit SystemWorld(std::vector<T> m) : menu(m) {}
    int count() const { return 2 * menu.size() + 1; }
    int enabled() { return count(); }
    std::string name(int i) { return i == 2 * (int) menu.size() ? "copy" : mc::fmt(i % 2 ? "node %d" : "place %d", i / 2); }
    void apply(int i)
    {
        if (i == 2 * (int) menu.size()) {
            // the same system, by way of the other kind of coordinates
            if constexpr (D > 1) {
                using O = std::conditional_t<D == 2, std::conditional_t<std::is_same_v<T, P>, C<2>, P>, std::conditional_t<std::is_same_v<T, S>, C<3>, S>>;
                mg::coordinate_system_t<O> other(*system);
                check_other(other);
                auto again = mg::coordinate_system<T>(other);
                int n = 0;
                for ([[maybe_unused]] auto & x : again) ++n;
                mc::require(n == (int) placed.size(), "copy", "%d points instead of %zu", n, placed.size());
                for (auto & [p, x] : placed)
                    mc::require(near(pos(again.coordinates(p)), pos(x)), "copy", "a point moved from %s to %s", str(x).c_str(), str(again.coordinates(p)).c_str());
            }
            return;
        }
        if (i % 2) {
            auto n = mg::node(*system, menu[i / 2]);
            placed.emplace_back(n->point(), menu[i / 2]);
        } else {
            auto p = mg::point_cloud<D>().point();
            system->place(p, menu[i / 2]);
            placed.emplace_back(p, menu[i / 2]);
        }
    }
    template <class O>
    void check_other(mg::coordinate_system_t<O> & other)
    {
        int n = 0;
        for ([[maybe_unused]] auto & x : other) ++n;
        mc::require(n == (int) placed.size(), "transform", "%d points instead of %zu", n, placed.size());
        for (auto & [p, x] : placed)
            mc::require(near(pos(other.coordinates(p)), pos(x)), "transform", "point %s is at %s in the other system", str(x).c_str(), str(other.coordinates(p)).c_str());
    }
    void check()
    {
        int n = 0;
        for (auto & [p, x] : *system) {
            int found = 0;
            for (auto & [q, y] : placed) found += q == p && x == y;
            mc::require(found == 1, "iteration", "a point of the system was placed %d times", found);
            ++n;
        }
        mc::require(n == (int) placed.size(), "iteration", "%d points instead of %zu", n, placed.size());
        for (auto & [p, x] : placed) mc::require(system->coordinates(p) == x, "lookup", "a point is at %s instead of %s", str(system->coordinates(p)).c_str(), str(x).c_str());
        for (size_t i = 0; i < placed.size(); ++i)
            for (size_t j = 0; j < placed.size(); ++j) {
                mc::require((placed[i].first == placed[j].first) == (i == j), "points", "two points are one");
                auto & [p, x] = placed[i];
                auto & [q, y] = placed[j];
                auto m = system->midpoint(p, q);
                V want = add(pos(x), pos(y));
                for (auto & w : want) w /= 2;
                mc::require(near(pos(m), want), "midpoint", "the midpoint of %s and %s is %s", str(x).c_str(), str(y).c_str(), str(m).c_str());
                V d = add(pos(x), pos(y), -1);
                mc::require(near(mg::distance(p, q, *system), std::sqrt(dot(d, d)), std::sqrt(dot(d, d))), "distance", "distance %g", mg::distance(p, q, *system));
            }
        auto o = system->origin();
        mc::require(near(pos(o), V {}), "origin", "the origin is %s", str(o).c_str());
    }
    void finish() {}
    uint64_t hash()
    {
        std::multiset<std::string> m;
        for (auto & [p, x] : placed) m.insert(str(x));
        uint64_t h = D + 10 * std::is_same_v<T, P> + 20 * std::is_same_v<T, S>;
        for (auto & s : m) h = mc::mix(h, mc::hash_str(s));
        return h;
    }
};

// the functions that extract the components
template <class T, class... F>
static void components(const char * name, const std::vector<T> & points, const F &... f)
{
    mc::for_case(mc::fmt("components %s", name), [&] {
        for (auto & x : points) {
            int d = 0;
            ([&] {
                mc::require(f(x) == x[d], "component", "the function for component %d at %s is %g", d, str(x).c_str(), double(f(x)));
                ++d;
            }(), ...);
            mc::evaluation(true, mc::mix(mc::hash_str(mc::current), &x - points.data()));
        }
    });
}

static void lattices(bool coarse)
{
    std::string suffix = unit == 1 ? "" : mc::fmt(" in units of %g", unit);
    std::vector<V> vectors;
    std::vector<double> steps { -2, -0.5, 0, 0.75, 3 };
    for (double a : steps)
        for (double b : steps)
            for (double c : steps) vectors.push_back({ unit * a, unit * b, unit * c });
    std::vector<C<1>> c1;
    std::vector<C<2>> c2;
    std::vector<C<3>> c3;
    std::vector<P> p, p_all;
    std::vector<S> s, s_all;
    for (double x : { -3., -1., 0., 0.25, 2. }) {
        c1.push_back({ unit * x });
        for (double y : { -3., -1., 0., 0.25, 2. }) {
            c2.push_back({ unit * x, unit * y });
            for (double z : { -3., -1., 0., 0.25, 2. }) c3.push_back({ unit * x, unit * y, unit * z });
        }
    }
    int np = coarse ? 6 : mc::pick(12, 24);
    for (double r : { 0.25, 1., 3. })
        for (int k = -np; k <= 2 * np; ++k) p.push_back({ unit * r, k * M_PI / np });
    p_all = p;
    p_all.push_back({ 0., 0. });
    p_all.push_back({ 0., 1. });
    int nt = coarse ? 3 : mc::pick(6, 12);
    for (double r : { 0.25, 1., 3. })
        for (int i = 0; i <= nt; ++i)
            for (int k = -nt; k <= nt; ++k) {
                S x { unit * r, i * M_PI / nt, k * M_PI / nt };
                s_all.push_back(x);
                if (i > 0 && i < nt) s.push_back(x);
            }
    s_all.push_back({ 0., 1., 2. });
    affine(("cartesian 1D" + suffix).c_str(), c1, c1, vectors);
    affine(("cartesian 2D" + suffix).c_str(), c2, c2, vectors);
    affine(("cartesian 3D" + suffix).c_str(), c3, c3, vectors);
    affine(("polar" + suffix).c_str(), p_all, p_all, vectors);
    affine(("spherical" + suffix).c_str(), s_all, s_all, vectors);
    components(("cartesian 1D" + suffix).c_str(), c1, mg::cartesian::x_0<1>);
    components(("cartesian 2D" + suffix).c_str(), c2, mg::cartesian::x_0<2>, mg::cartesian::x_1<2>);
    components(("cartesian 3D" + suffix).c_str(), c3, mg::cartesian::x_0<3>, mg::cartesian::x_1<3>, mg::cartesian::x_2<3>);
    components(("polar" + suffix).c_str(), p_all, mg::polar::r, mg::polar::theta);
    components(("spherical" + suffix).c_str(), s_all, mg::spherical::r, mg::spherical::theta, mg::spherical::phi);
    transforms<C<2>, P>(("cartesian to polar" + suffix).c_str(), c2);
    transforms<P, C<2>>(("polar to cartesian" + suffix).c_str(), p_all);
    transforms<C<3>, S>(("cartesian to spherical" + suffix).c_str(), c3);
    transforms<S, C<3>>(("spherical to cartesian" + suffix).c_str(), s_all);
}
// systems of many points
template <class T> static void many(const char * name, int n)
{
    mc::for_case(mc::fmt("%d points in %s coordinates", n, name), [&] {
        constexpr int D = T::dim;
        mg::coordinate_system_t<T> system;
        std::vector<std::pair<mg::point_t<D>, T>> placed;
        for (int i = 0; i < n; ++i) {
            T x;
            if constexpr (std::is_same_v<T, P>) x = P(1 + i % 37, 0.01 * (i % 300));
            else if constexpr (std::is_same_v<T, S>) x = S(1 + i % 37, 0.1 + 0.01 * (i % 290), 0.02 * (i % 150));
            else {
                mito::tensor::vector_t<D> v;
                for (int d = 0; d < D; ++d) v[d] = d == 0 ? i % 101 : d == 1 ? i / 101 : i % 13;
                x = T(v);
            }
            if (i % 3) {
                placed.emplace_back(mg::point_cloud<D>().point(), x);
                system.place(placed.back().first, x);
            } else placed.emplace_back(mg::node(system, x)->point(), x);
        }
        auto count = [](auto & s) {
            int k = 0;
            for ([[maybe_unused]] auto & x : s) ++k;
            return k;
        };
        mc::require(count(system) == n, "iteration", "%d points instead of %d", count(system), n);
        for (auto & [p, x] : placed) mc::require(system.coordinates(p) == x, "lookup", "a point is at %s instead of %s", str(system.coordinates(p)).c_str(), str(x).c_str());
        if constexpr (D > 1) {
            using O = std::conditional_t<D == 2, std::conditional_t<std::is_same_v<T, P>, C<2>, P>, std::conditional_t<std::is_same_v<T, S>, C<3>, S>>;
            mg::coordinate_system_t<O> other(system);
            mc::require(count(other) == n, "transform", "%d points instead of %d", count(other), n);
            for (auto & [p, x] : placed) {
                V a = pos(other.coordinates(p)), b = pos(x);
                mc::require(std::sqrt(dot(add(a, b, -1), add(a, b, -1))) < 1e-11 * (1 + std::sqrt(dot(b, b))), "transform", "point %s is at %s in the other system", str(x).c_str(), str(other.coordinates(p)).c_str());
            }
        }
        mc::evaluation(true, mc::hash_str(mc::current));
    });
}

int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C18");
    lattices(false);
    for (double u : { 1e-9, 1e-4, 1e7 }) {
        unit = u;
        lattices(true);
    }
    unit = 1;
    many<C<1>>("cartesian", 500);
    many<C<2>>("cartesian", 5000);
    many<C<3>>("cartesian", 5000);
    many<P>("polar", 3000);
    many<S>("spherical", 3000);
    int depth = mc::pick(4, 5);
    mc::explore("system of cartesian coordinates in 1D", depth, [] { return SystemWorld<C<1>>({ { 1. }, { -2. } }); });
    mc::explore("system of cartesian coordinates in 2D", depth, [] { return SystemWorld<C<2>>({ { 1., 0.5 }, { -2., 1. }, { 0., 0. } }); });
    mc::explore("system of cartesian coordinates in 3D", depth, [] { return SystemWorld<C<3>>({ { 1., 0.5, 2. }, { -2., 1., 0. }, { 0., 0., 0. } }); });
    mc::explore("system of polar coordinates", depth, [] { return SystemWorld<P>({ { 1., 0.5 }, { 2., -1. }, { 0.5, 3. } }); });
    mc::explore("system of spherical coordinates", depth, [] { return SystemWorld<S>({ { 1., 0.5, 2. }, { 2., 1., -1. }, { 0.5, 3., 0. } }); });
    return mc::finish();
}
