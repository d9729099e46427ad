// C21: fields and their differential operators, metric spaces. FOCUS 1..3: operators on fields of cartesian
// coordinates in 1 to 3 dimensions, 4: forms and metric spaces.
#include "jets.h"
#include <mito/geometry.h>
#include <mito/fields.h>
namespace mg = mito::geometry;
namespace fi = mito::fields;
#ifndef FOCUS
#define FOCUS 0
#endif
#define IN_FOCUS(n) (FOCUS == 0 || FOCUS == n)
template <int D> using C_ = mg::cartesian::coordinates_t<D>;
using P_ = mg::polar::coordinates_t<2>;
using S_ = mg::spherical::coordinates_t<3>;

// compare an operator applied to a field with derivatives of its reference
template <class X, class G> static void operate(const std::string & name, const G & got, std::function<std::vector<double>(const std::vector<J> &)> want, Ref ref)
{
    mc::for_case(name, [&] {
        bool any = false;
        auto f = eval(got);
        for (auto & p : lattice<X>()) {
            In in;
            for (int i = 0; i < Dim<X>::d; ++i) {
                in[i] = C(p[i]);
                in[i].g[i] = 1;
                in[i].grow();
            }
            auto r = ref(in);
            double m = 0;
            bool bad = false;
            for (auto & w : r) m = std::max(m, w.m), bad = bad || w.bad || !std::isfinite(w.m);
            if (bad || m > 1e7) continue;
            any = true;
            compare(f(p.data()), want(r), m, "operator", p);
            mc::transition();
        }
        mc::evaluation(any, mc::hash_str(name));
    });
}
template <class X, int D> static void scalar_fields()
{
    auto all = std::tuple_cat(some<deep ? 11 : 8>(Leaves<X>::forms()), std::make_tuple(product(un(Sin {}, Leaves<X>::x0()), un(Exp {}, Leaves<X>::last())), quotient(Leaves<X>::last(), un(PlusC {}, un(Pow2 {}, Leaves<X>::x0())))));
    for_tuple(all, [&](const auto & a) {
        auto n = mc::fmt("%dD ", D);
        const auto g = fi::gradient(a.f);
        operate<X>(n + "gradient " + a.n, g, [](auto & r) { return std::vector<double>(r[0].g, r[0].g + D); }, a.r);
        operate<X>(n + "divergence of gradient " + a.n, fi::divergence(g), [](auto & r) {
            double s = 0;
            for (int i = 0; i < D; ++i) s += r[0].h[i][i];
            return std::vector<double> { s };
        }, a.r);
        if constexpr (D > 1)
            operate<X>(n + "gradient of gradient " + a.n, fi::gradient(g), [](auto & r) {
                std::vector<double> h;
                for (int i = 0; i < D; ++i)
                    for (int k = 0; k < D; ++k) h.push_back(r[0].h[i][k]);
                return h;
            }, a.r);
    });
}
template <class X, int D, int N> static void vector_fields()
{
    for_tuple(some<deep ? 6 : 5>(vectors<X, N>()), [&](const auto & a) {
        auto n = mc::fmt("%dD to %dD ", D, N);
        const auto g = fi::gradient(a.f);
        operate<X>(n + "gradient " + a.n, g, [](auto & r) {
            std::vector<double> v;
            for (int i = 0; i < N; ++i)
                for (int k = 0; k < D; ++k) v.push_back(r[i].g[k]);
            return v;
        }, a.r);
        if constexpr (N == D) {
            const auto d = fi::divergence(a.f);
            operate<X>(n + "divergence " + a.n, d, [](auto & r) {
                double s = 0;
                for (int i = 0; i < D; ++i) s += r[i].g[i];
                return std::vector<double> { s };
            }, a.r);
            if constexpr (D < 3 || deep) {
                operate<X>(n + "gradient of divergence " + a.n, fi::gradient(d), [](auto & r) {
                    std::vector<double> v;
                    for (int k = 0; k < D; ++k) {
                        double s = 0;
                        for (int i = 0; i < D; ++i) s += r[i].h[i][k];
                        v.push_back(s);
                    }
                    return v;
                }, a.r);
                operate<X>(n + "divergence of gradient " + a.n, fi::divergence(g), [](auto & r) {
                    std::vector<double> v;
                    for (int i = 0; i < D; ++i) {
                        double s = 0;
                        for (int k = 0; k < D; ++k) s += r[i].h[k][k];
                        v.push_back(s);
                    }
                    return v;
                }, a.r);
                operate<X>(n + "divergence of transposed gradient " + a.n, fi::divergence(mf::transpose(g)), [](auto & r) {
                    std::vector<double> v;
                    for (int i = 0; i < D; ++i) {
                        double s = 0;
                        for (int k = 0; k < D; ++k) s += r[k].h[i][k];
                        v.push_back(s);
                    }
                    return v;
                }, a.r);
            }
        }
    });
}
template <class X, int D> static void tensor_fields()
{
    auto divergence = [](auto & r) {
        std::vector<double> v;
        for (int i = 0; i < D; ++i) {
            double s = 0;
            for (int k = 0; k < D; ++k) s += r[i * D + k].g[k];
            v.push_back(s);
        }
        return v;
    };
    auto x = Leaves<X>::x0();
    auto y = Leaves<X>::last();
    auto n = mc::fmt("%dD ", D);
    auto test = [&](const auto & a) { operate<X>(n + "divergence " + a.n, fi::divergence(a.f), divergence, a.r); };
    if constexpr (D == 2) {
        test(mat<2, 2, X>(std::make_tuple(un(Exp {}, x), product(x, y), un(Sin {}, y), un(PlusC {}, x))));
        test(mat<2, 2, X>(std::make_tuple(product(y, y), Leaves<X>::constant(), un(CTimes {}, x), un(Cos {}, product(x, y)))));
    } else {
        test(mat<3, 3, X>(std::make_tuple(un(Exp {}, x), y, un(Sin {}, y), product(x, y), un(PlusC {}, y), un(Sin {}, x), un(Cos {}, y), x, un(CPlus {}, product(y, y)))));
    }
    auto z = one(mf::component<X, 1>, [](const In & p) { return p[1]; }, "y");
    auto s = product(product(x, un(Sin {}, y)), z);
    // multiples of the identity, from either side
    auto id = [](const J & j) {
        std::vector<J> r(D * D);
        for (int i = 0; i < D; ++i) r[i * D + i] = j;
        return r;
    };
    test(ex(s.f * mt::identity<D>, [r = s.r, id](const In & p) { return id(r(p)[0]); }, s.n + " I"));
    test(ex(mf::identity<X, D>() * s.f, [r = s.r, id](const In & p) { return id(r(p)[0]); }, "I " + s.n));
    // a symmetric one
    auto sym = mt::symmetric(mt::unit<mt::matrix_t<D>, 0, 1>);
    test(ex(s.f * sym, [r = s.r, sym](const In & p) {
        std::vector<J> v;
        auto j = r(p)[0];
        for (int i = 0; i < D; ++i)
            for (int k = 0; k < D; ++k) v.push_back(C(i + k == 1 ? 0.5 : 0) * j);
        return v;
    }, s.n + " sym(e_01)"));
}

// ---------------------------------------------------------------- forms and metric spaces
using V = std::array<double, 3>;
// the derivatives of the position with respect to the coordinates, in the orthonormal frame
static V stretch(const P_ & x) { return { 1, x[0], 1 }; }
static V stretch(const S_ & x) { return { 1, x[0], x[0] * std::sin(x[1]) }; }
template <int D> static V stretch(const C_<D> &) { return { 1, 1, 1 }; }
template <int D> static mt::vector_t<D> vector(int code)
{
    mt::vector_t<D> v;
    for (int i = 0; i < D; ++i, code /= 3) v[i] = (code % 3 - 1) * (1 + 0.5 * i);
    return v;
}
template <int D> constexpr int codes() { return D == 1 ? 3 : D == 2 ? 9 : 27; }
static double det(const std::vector<std::vector<double>> & a)
{
    int n = a.size();
    if (n == 1) return a[0][0];
    if (n == 2) return a[0][0] * a[1][1] - a[0][1] * a[1][0];
    return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
}
static void close(double got, double want, const char * what, const std::string & where, double scale = 1)
{
    mc::require(std::abs(got - want) <= 1e-11 * (scale + std::abs(want)), what, "%s is %.15g instead of %.15g at %s", what, got, want, where.c_str());
}
template <class X> static std::string str(const X & x)
{
    std::string s;
    for (int i = 0; i < X::dim; ++i) s += mc::fmt(" %g", x[i]);
    return s;
}
// a field of one-forms with its components in the dual basis
template <class F> struct Form {
    F f;
    std::function<V(const In &)> c;
    std::string n;
};
template <class F> static Form<F> form(const F & f, std::function<V(const In &)> c, std::string n) { return { f, c, n }; }
template <class X, int I> static auto basis_form()
{
    using M = mg::metric_space<X>;
    return form(M::template dx<I>, [](const In &) { V v {}; v[I] = 1; return v; }, mc::fmt("dx%d", I));
}
template <class F, class E> static auto times(const Ex<E> & s, const Form<F> & a) { return form(s.f * a.f, [r = s.r, c = a.c](const In & p) { auto v = c(p); double k = r(p)[0].v; for (auto & x : v) x *= k; return v; }, s.n + " " + a.n); }
template <class F, class E> static auto times(const Form<F> & a, const Ex<E> & s) { return form(a.f * s.f, [r = s.r, c = a.c](const In & p) { auto v = c(p); double k = r(p)[0].v; for (auto & x : v) x *= k; return v; }, a.n + " " + s.n); }
template <class F, class G> static auto plus(const Form<F> & a, const Form<G> & b) { return form(a.f + b.f, [c = a.c, d = b.c](const In & p) { auto v = c(p), w = d(p); for (int i = 0; i < 3; ++i) v[i] += w[i]; return v; }, "(" + a.n + " + " + b.n + ")"); }
template <class F, class G> static auto minus(const Form<F> & a, const Form<G> & b) { return form(a.f - b.f, [c = a.c, d = b.c](const In & p) { auto v = c(p), w = d(p); for (int i = 0; i < 3; ++i) v[i] -= w[i]; return v; }, "(" + a.n + " - " + b.n + ")"); }
template <class X> static In input(const X & x)
{
    In in;
    for (int i = 0; i < X::dim; ++i) in[i] = C(x[i]), in[i].g[i] = 1;
    return in;
}
template <class X> static void spaces(const char * name, const std::vector<X> & points, const auto & metric, const auto &... named)
{
    constexpr int D = X::dim;
    using M = mg::metric_space<X>;
    mc::for_case(mc::fmt("metric space %s", name), [&] {
        for (auto & x : points) {
            auto s = stretch(x);
            auto where = str(x);
            const auto g = M::g(x);
            const auto gi = M::g_inv(x);
            // the fields by their names
            {
                int i = 0;
                ([&] {
                    const auto e = named(x);
                    for (int k = 0; k < D; ++k) close(e[k], k == i ? s[k] : 0, "named basis vector", where, s[k]);
                    ++i;
                }(), ...);
                const auto gm = metric(x);
                for (int j = 0; j < D; ++j)
                    for (int k = 0; k < D; ++k) close(gm[{ j, k }], j == k ? s[j] * s[j] : 0, "named metric", where, s[j] * s[k]);
            }
            [&]<int... I>(mt::integer_sequence<I...>) {
                ([&] {
                    auto e = M::template e<I>(x);
                    for (int k = 0; k < D; ++k) close(e[k], k == I ? s[k] : 0, "basis vector", where, s[k]);
                    for (int k = 0; k < D; ++k) {
                        close(g[{ I, k }], I == k ? s[I] * s[I] : 0, "metric", where, s[I] * s[k]);
                        close(gi[{ I, k }], I == k ? 1 / (s[I] * s[I]) : 0, "inverse metric", where, 1 / (s[I] * s[k]));
                    }
                    const auto form = M::template dx<I>(x);
                    for (int c = 0; c < codes<D>(); ++c) {
                        auto v = vector<D>(c);
                        close(form(v), v[I] / s[I], "basis form", where, 1 / s[I]);
                    }
                }(), ...);
                const auto w = M::w(x);
                double volume = 1;
                for (int k = 0; k < D; ++k) volume *= s[k];
                close(w(M::template e<I>(x)...), volume, "volume of the basis", where, volume);
            }(mt::make_integer_sequence<D> {});
            mc::evaluation(true, mc::mix(mc::hash_str(mc::current), &x - points.data()));
            mc::transition();
        }
    });
    // the volume form on all vectors is their determinant
    mc::for_case(mc::fmt("volume form %s", name), [&] {
        for (auto & x : points) {
            const auto w = M::w(x);
            int total = 1;
            for (int k = 0; k < D; ++k) total *= codes<D>();
            for (int c = 0; c < total; c += D == 3 ? 7 : 1) {
                std::vector<std::vector<double>> a;
                std::vector<mt::vector_t<D>> v;
                for (int k = 0, q = c; k < D; ++k, q /= codes<D>()) {
                    v.push_back(vector<D>(q % codes<D>()));
                    a.push_back(flat(v.back()));
                }
                double got = 0;
                if constexpr (D == 1) got = w(v[0]);
                if constexpr (D == 2) got = w(v[0], v[1]);
                if constexpr (D == 3) got = w(v[0], v[1], v[2]);
                close(got, det(a), "volume form", str(x));
                mc::transition();
            }
            mc::evaluation(true, mc::mix(mc::hash_str(mc::current), &x - points.data()));
        }
    });
    // the metric equivalents of forms with any components, and of vectors
    auto equivalents = [&](const auto & a) {
        mc::for_case(mc::fmt("metric equivalents %s %s", name, a.n.c_str()), [&] {
            const auto sharp = M::metric_equivalent(a.f);
            const auto flat_ = M::metric_equivalent(sharp);
            for (auto & x : points) {
                auto s = stretch(x);
                auto c = a.c(input(x));
                auto v = sharp(x);
                const auto w = flat_(x);
                const auto f = a.f(x);
                for (int k = 0; k < D; ++k) close(v[k], c[k] / s[k], "metric equivalent vector", str(x), (1 + std::abs(c[k])) / s[k]);
                for (int q = 0; q < codes<D>(); ++q) {
                    auto u = vector<D>(q);
                    double want = 0, size = 1;
                    for (int k = 0; k < D; ++k) want += c[k] * u[k] / s[k], size += std::abs(c[k] * u[k] / s[k]);
                    close(f(u), want, "form", str(x), size);
                    close(w(u), want, "metric equivalent form", str(x), size);
                }
                mc::transition();
                mc::evaluation(true, mc::mix(mc::hash_str(mc::current), &x - points.data()));
            }
        });
    };
    auto x = Leaves<X>::x0();
    auto y = un(PlusC {}, Leaves<X>::last());
    auto first = basis_form<X, 0>();
    auto last = basis_form<X, D - 1>();
    auto a = times(y, first);
    auto b = plus(a, times(last, product(x, y)));
    auto c = minus(times(un(Exp {}, x), last), first);
    equivalents(first);
    equivalents(last);
    equivalents(a);
    equivalents(b);
    equivalents(c);
    // products of fields of forms
    auto two = [&](const auto & p, const auto & q) {
        mc::for_case(mc::fmt("products %s %s and %s", name, p.n.c_str(), q.n.c_str()), [&] {
            const auto wedge = fi::wedge(p.f, q.f);
            const auto tensor = fi::tensor(p.f, q.f);
            for (auto & x : points) {
                auto s = stretch(x);
                auto cp = p.c(input(x)), cq = q.c(input(x));
                const auto w = wedge(x);
                const auto t = tensor(x);
                for (int i = 0; i < codes<D>(); ++i)
                    for (int k = 0; k < codes<D>(); ++k) {
                        auto u = vector<D>(i), v = vector<D>(k);
                        double pu = 0, pv = 0, qu = 0, qv = 0, P = 1, Q = 1;
                        for (int d = 0; d < D; ++d) {
                            pu += cp[d] * u[d] / s[d], pv += cp[d] * v[d] / s[d];
                            qu += cq[d] * u[d] / s[d], qv += cq[d] * v[d] / s[d];
                            P += std::abs(cp[d]) * (std::abs(u[d]) + std::abs(v[d])) / s[d], Q += std::abs(cq[d]) * (std::abs(u[d]) + std::abs(v[d])) / s[d];
                        }
                        close(t(u, v), pu * qv, "tensor product", str(x), P * Q);
                        close(w(u, v), pu * qv - pv * qu, "wedge product", str(x), P * Q);
                    }
                mc::transition();
                mc::evaluation(true, mc::mix(mc::hash_str(mc::current), &x - points.data()));
            }
        });
    };
    if constexpr (D > 1) {
        two(first, last);
        two(last, first);
        two(first, first);
        two(b, c);
        two(c, b);
        two(a, b);
        mc::for_case(mc::fmt("wedge of one %s", name), [&] {
            const auto w = fi::wedge(b.f);
            for (auto & x : points)
                for (int q = 0; q < codes<D>(); ++q) close(w(x)(vector<D>(q)), b.f(x)(vector<D>(q)), "wedge of one", str(x));
        });
    }
    if constexpr (D == 3) {
        auto mid = times(x, basis_form<X, 1>());
        auto three = [&](const auto & p, const auto & q, const auto & r) {
            mc::for_case(mc::fmt("products %s %s and %s and %s", name, p.n.c_str(), q.n.c_str(), r.n.c_str()), [&] {
                const auto wedge = fi::wedge(p.f, q.f, r.f);
                const auto tensor = fi::tensor(p.f, q.f, r.f);
                for (auto & x : points) {
                    auto s = stretch(x);
                    std::array<V, 3> c { p.c(input(x)), q.c(input(x)), r.c(input(x)) };
                    const auto w = wedge(x);
                    const auto t = tensor(x);
                    for (int code = 0; code < 27 * 27 * 27; code += 31) {
                        mt::vector_t<3> v[3] { vector<3>(code % 27), vector<3>(code / 27 % 27), vector<3>(code / 27 / 27) };
                        std::vector<std::vector<double>> m(3, std::vector<double>(3));
                        double size = 1;
                        for (int i = 0; i < 3; ++i) {
                            double row = 1;
                            for (int k = 0; k < 3; ++k)
                                for (int d = 0; d < 3; ++d) m[i][k] += c[i][d] * v[k][d] / s[d], row += std::abs(c[i][d] * v[k][d] / s[d]);
                            size *= row;
                        }
                        close(t(v[0], v[1], v[2]), m[0][0] * m[1][1] * m[2][2], "tensor product", str(x), size);
                        mc::require(std::abs(w(v[0], v[1], v[2]) - det(m)) < 1e-11 * size, "wedge product", "wedge product is %g instead of %g at %s", w(v[0], v[1], v[2]), det(m), str(x).c_str());
                    }
                    mc::transition();
                    mc::evaluation(true, mc::mix(mc::hash_str(mc::current), &x - points.data()));
                }
            });
        };
        three(first, mid, last);
        three(last, mid, first);
        three(mid, last, first);
        three(b, mid, c);
        three(c, b, mid);
        three(b, b, mid);
    }
}

int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C21");
#if IN_FOCUS(1)
    scalar_fields<C_<1>, 1>();
    scalar_fields<C_<2>, 2>();
    tensor_fields<C_<2>, 2>();
#endif
#if IN_FOCUS(2)
    vector_fields<C_<2>, 2, 2>();
    vector_fields<C_<2>, 2, 3>();
    vector_fields<C_<3>, 3, 2>();
#endif
#if IN_FOCUS(3)
    scalar_fields<C_<3>, 3>();
#endif
#if IN_FOCUS(4)
    tensor_fields<C_<3>, 3>();
    vector_fields<C_<3>, 3, 3>();
#endif
#if IN_FOCUS(5)
    std::vector<C_<1>> c1;
    std::vector<C_<2>> c2;
    std::vector<C_<3>> c3;
    for (double x : { -1.5, 0., 0.75, 2. }) {
        c1.push_back(C_<1>({ x }));
        for (double y : { -1., 0., 0.5 }) {
            c2.push_back(C_<2>({ x, y }));
            for (double z : { -0.5, 0., 1. }) c3.push_back(C_<3>({ x, y, z }));
        }
    }
    spaces("cartesian 1D", c1, mg::cartesian::metric<1>, mg::cartesian::e_0<1>);
    spaces("cartesian 2D", c2, mg::cartesian::metric<2>, mg::cartesian::e_0<2>, mg::cartesian::e_1<2>);
    spaces("cartesian 3D", c3, mg::cartesian::metric<3>, mg::cartesian::e_0<3>, mg::cartesian::e_1<3>, mg::cartesian::e_2<3>);
#endif
#if IN_FOCUS(6)
    std::vector<P_> p;
    std::vector<S_> s;
    int n = mc::pick(4, 12);
    for (double r : { 0.25, 1., 2., 3.5 })
        for (int k = -n; k <= n; ++k) {
            p.push_back(P_({ r, k * M_PI / n }));
            for (int t = 1; t < n; ++t) s.push_back(S_({ r, t * M_PI / n, k * M_PI / n }));
        }
    // near the origin, near the axis, and far away
    for (double r : { 1e-9, 80. })
        for (double a : { 0.3, -2.0 }) {
            p.push_back(P_({ r, a }));
            for (double t : { 1e-6, 1., 3.1415 }) s.push_back(S_({ r, t, a }));
        }
    spaces("polar", p, mg::polar::metric, mg::polar::e_r, mg::polar::e_theta);
    spaces("spherical", s, mg::spherical::metric, mg::spherical::e_r, mg::spherical::e_theta, mg::spherical::e_phi);
#endif
    return mc::finish();
}
