// C20: the algebra of functions and their derivatives. Expressions are enumerated at compile time
// (FOCUS selects a part of them).
#include "jets.h"
#ifndef FOCUS
#define FOCUS 0
#endif
#define IN_FOCUS(n) (FOCUS == 0 || FOCUS == n)

// all operations on all pairs of forms
template <class X, int order> static void pairs()
{
    auto forms = Leaves<X>::forms();
    for_tuple(forms, [&](const auto & a) {
        for_tuple(some<4>(forms), [&](const auto & b) {
            test<order, deep>(sum(a, b));
            test<order, deep>(difference(b, a));
            test<order, deep>(product(a, b));
            test<order, deep>(quotient(b, a));
        });
    });
}
// three at a time
template <class X> static void triples()
{
    auto x = Leaves<X>::x0();
    auto y = Leaves<X>::last();
    auto few = some<3>(std::make_tuple(x, un(Exp {}, y), Leaves<X>::constant(), product(x, y)));
    for_tuple(few, [&](const auto & a) {
        for_tuple(few, [&](const auto & b) {
            for_tuple(few, [&](const auto & c) {
                auto n = a.n + ", " + b.n + ", " + c.n;
                auto r = a.r, s = b.r, t = c.r;
                test<1 + deep, deep>(one(mf::summation(a.f, b.f, c.f), [r, s, t](const In & p) { return r(p)[0] + s(p)[0] + t(p)[0]; }, "summation(" + n + ")"));
                test<1 + deep, deep>(one(mf::linear_combination(std::array<double, 3> { 2., -0.5, 3. }, a.f, b.f, c.f),
                         [r, s, t](const In & p) { return C(2) * r(p)[0] + C(-0.5) * s(p)[0] + C(3) * t(p)[0]; }, "linear_combination(" + n + ")"));
                test<1, deep>(sum(product(a, b), c));
                test<1, deep>(difference(a, difference(b, c)));
                if constexpr (deep) test<1>(product(a, sum(b, c)));
                if constexpr (deep) test<1>(difference(difference(a, b), c));
                test<1, deep>(product(quotient(a, sum(un(Pow2 {}, b), Leaves<X>::constant())), c));
            });
        });
    });
}
// compositions of scalar functions: the outer ones as functions of a scalar
static auto outers()
{
    auto t = [](auto j) { return [j](const In & x) { return j(x[0]); }; };
    return std::make_tuple(
        one(mf::sin, t(j_sin), "sin"), one(mf::exp, t(j_exp), "exp"), one(mf::pow<3>, t([](const J & a) { return j_pow(a, 3); }), "pow<3>"), one(mf::constant<double>(0.75), t([](const J &) { return C(0.75); }), "constant"),
        one(mf::sin + mf::pow<2>, t([](const J & a) { return j_sin(a) + a * a; }), "[sin + pow<2>]"), one(2.0 * mf::cos, t([](const J & a) { return C(2) * j_cos(a); }), "[2 cos]"),
        one(mf::cos * 2.0, t([](const J & a) { return C(2) * j_cos(a); }), "[cos * 2]"), one(mf::cos + 0.5, t([](const J & a) { return C(0.5) + j_cos(a); }), "[cos + 0.5]"),
        one(mf::sin * mf::exp, t([](const J & a) { return j_sin(a) * j_exp(a); }), "[sin exp]"), one(1.0 / (2.0 + mf::cos), t([](const J & a) { return inv(C(2) + j_cos(a)); }), "[1 / (2 + cos)]"),
        one(mf::sin(mf::cos), t([](const J & a) { return j_sin(j_cos(a)); }), "[sin(cos)]"),
        one(mf::linear_combination(std::array<double, 2> { 3., -2. }, mf::sin, mf::sin), t([](const J & a) { return j_sin(a); }), "[3 sin - 2 sin]"));
}
template <class X> static void compositions()
{
    for_tuple(outers(), [&](const auto & o) {
        for_tuple(some<4>(Leaves<X>::forms()), [&](const auto & i) {
            auto r = o.r, s = i.r;
            auto fog = one(o.f(i.f), [r, s](const In & p) {
                J inner = s(p)[0];
                In v;
                v[0] = inner;
                return r(v)[0];
            }, o.n + "(" + i.n + ")");
            test<1 + deep, false>(fog);
            // sin(o(i)), as a composition with i of one with o
            auto again = one(mf::cos(o.f)(i.f), [r = fog.r](const In & p) { return j_cos(r(p)[0]); }, "cos(" + o.n + ") of " + i.n);
            test<1, false>(again);
        });
    });
}
template <class X, int N> static void vector_valued()
{
    auto vs = vectors<X, N>();
    auto s = std::make_tuple(Leaves<X>::x0(), un(Exp {}, Leaves<X>::last()));
    for_tuple(vs, [&](const auto & a) {
        test<1 + deep, true>(a);
        for (int i = 0; i < N; ++i) test<1 + deep, true>(at(a, i));
        auto r = a.r;
        test<1, deep>(ex(-a.f, [r](const In & p) { return scale(C(-1), r(p)); }, "-" + a.n));
        test<1, deep>(ex(a.f / 4.0, [r](const In & p) { return scale(C(0.25), r(p)); }, a.n + " / 4"));
        test<1, deep>(ex(a.f - vc<N>(1), [r](const In & p) { return zip(r(p), constants(flat(vc<N>(1))), [](auto x, auto y) { return x - y; }); }, a.n + " - v"));
        test<1, deep>(ex(vc<N>(1) - a.f, [r](const In & p) { return zip(constants(flat(vc<N>(1))), r(p), [](auto x, auto y) { return x - y; }); }, "v - " + a.n));
        test<1 + deep, false>(one(vc<N>(1) * a.f, [r](const In & p) { return dotj(constants(flat(vc<N>(1))), r(p)); }, "v . " + a.n));
        test<1 + deep, false>(one(a.f * vc<N>(1), [r](const In & p) { return dotj(constants(flat(vc<N>(1))), r(p)); }, a.n + " . v"));
        for_tuple(s, [&](const auto & c) {
            auto q = c.r;
            test<1 + deep, false>(ex(c.f * a.f, [r, q](const In & p) { return scale(q(p)[0], r(p)); }, c.n + " * " + a.n));
            test<1 + deep, false>(ex(a.f * c.f, [r, q](const In & p) { return scale(q(p)[0], r(p)); }, a.n + " * " + c.n));
            test<1, false>(ex(a.f / c.f, [r, q](const In & p) { return scale(inv(q(p)[0]), r(p)); }, a.n + " / " + c.n));
            // v / s
            test<1, false>(ex(vc<N>() / c.f, [q](const In & p) { return scale(inv(q(p)[0]), constants(flat(vc<N>()))); }, "v / " + c.n));
        });
        for_tuple(some<2>(vs), [&](const auto & b) {
            auto t = b.r;
            test<1, deep>(ex(a.f + b.f, [r, t](const In & p) { return zip(r(p), t(p), [](auto x, auto y) { return x + y; }); }, a.n + " + " + b.n));
            test<1, deep>(ex(a.f - b.f, [r, t](const In & p) { return zip(r(p), t(p), [](auto x, auto y) { return x - y; }); }, a.n + " - " + b.n));
            test<1 + deep, false>(one(a.f * b.f, [r, t](const In & p) { return dotj(r(p), t(p)); }, a.n + " . " + b.n));
            test<0>(ex(mf::dyadic(a.f, b.f), [r, t](const In & p) {
                auto u = r(p), v = t(p);
                std::vector<J> w;
                for (auto & x : u)
                    for (auto & y : v) w.push_back(x * y);
                return w;
            }, a.n + " (x) " + b.n));
        });
    });
}
// compositions with functions whose values are vectors
template <class X, int N> static void of_vectors()
{
    using Y = mt::vector_t<N>;
    auto compose = [](const auto & o, const auto & i) {
        return [r = o.r, s = i.r](const In & p) {
            auto v = s(p);
            In q;
            for (size_t k = 0; k < v.size(); ++k) q[k] = v[k];
            return r(q);
        };
    };
    for_tuple(some<3>(vectors<X, N>()), [&](const auto & i) {
        for_tuple(some<11>(Leaves<Y>::forms()), [&](const auto & o) { test<1 + deep, false>(ex(o.f(i.f), compose(o, i), o.n + " of " + i.n)); });
        if constexpr (N == 3) {
            // one of the component in the middle
            const auto o = one(mf::component<Y, 1> * mf::component<Y, 1> + mf::component<Y, 0>, [](const In & p) { return p[1] * p[1] + p[0]; }, "(y y + x)");
            test<1 + deep, false>(ex(o.f(i.f), compose(o, i), o.n + " of " + i.n));
        }
        for_tuple(some<3>(vectors<Y, 2>()), [&](const auto & o) { test<1, true>(ex(o.f(i.f), compose(o, i), o.n + " of " + i.n)); });
    });
}
template <class X> static void matrix_valued()
{
    auto x = Leaves<X>::x0();
    auto y = Leaves<X>::last();
    auto one_ = Leaves<X>::constant();
    auto A = mat<2, 2, X>(std::make_tuple(un(Exp {}, x), product(x, y), un(Sin {}, y), un(PlusC {}, x)));
    auto B = mat<2, 2, X>(std::make_tuple(y, one_, un(CTimes {}, x), un(Cos {}, x)));
    auto R = mat<2, 3, X>(std::make_tuple(x, product(y, y), un(Sin {}, x), one_, un(TimesC {}, y), product(x, y)));
    auto T3 = mat<3, 3, X>(std::make_tuple(un(Exp {}, x), y, one_, product(x, y), un(PlusC {}, y), un(Sin {}, x), un(Cos {}, y), x, un(CPlus {}, y)));
    M22 K { 1.0, -0.5, 2.0, 3.0 };
    auto Kc = ex(mf::constant<X>(K), [K](const In &) { return constants(flat(K)); }, "constant matrix");
    auto twos = std::make_tuple(A, B, Kc);
    auto v2 = vectors<X, 2>();
    auto v3 = vectors<X, 3>();
    auto invert = [](std::vector<J> a) {
        J d = inv(det(a));
        return std::vector<J> { a[3] * d, -(a[1] * d), -(a[2] * d), a[0] * d };
    };
    for_tuple(twos, [&](const auto & a) {
        auto r = a.r;
        test<1 + deep, false>(a);
        for (int i = 0; i < 2; ++i)
            for (int j = 0; j < 2; ++j) test<1, true>(entry(a, i, j, 2));
        test<1 + deep, false>(ex(mf::transpose(a.f), [r](const In & p) { return tr(r(p), 2, 2); }, "transpose " + a.n));
        test<0>(one(mf::determinant(a.f), [r](const In & p) { return det(r(p)); }, "determinant " + a.n));
        test<0>(ex(mf::inverse(a.f), [r, invert](const In & p) { return invert(r(p)); }, "inverse " + a.n));
        test<1, false>(ex(a.f + K, [r, K](const In & p) { return zip(r(p), constants(flat(K)), [](auto x, auto y) { return x + y; }); }, a.n + " + K"));
        test<1, false>(ex(a.f - K, [r, K](const In & p) { return zip(r(p), constants(flat(K)), [](auto x, auto y) { return x - y; }); }, a.n + " - K"));
        test<1, false>(ex(K - a.f, [r, K](const In & p) { return zip(constants(flat(K)), r(p), [](auto x, auto y) { return x - y; }); }, "K - " + a.n));
        test<1, false>(ex(K * a.f, [r, K](const In & p) { return mul(constants(flat(K)), r(p), 2, 2, 2); }, "K " + a.n));
        test<1, false>(ex(a.f * K, [r, K](const In & p) { return mul(r(p), constants(flat(K)), 2, 2, 2); }, a.n + " K"));
        test<1, false>(ex(a.f / 4.0, [r](const In & p) { return scale(C(0.25), r(p)); }, a.n + " / 4"));
        test<1, false>(ex(y.f * a.f, [r, y](const In & p) { return scale(y.r(p)[0], r(p)); }, y.n + " " + a.n));
        test<1, false>(ex(a.f * y.f, [r, y](const In & p) { return scale(y.r(p)[0], r(p)); }, a.n + " " + y.n));
        test<1, false>(ex(a.f * R.f, [r, R](const In & p) { return mul(r(p), R.r(p), 2, 2, 3); }, a.n + " " + R.n));
        test<1, false>(ex(mf::transpose(R.f) * a.f, [r, R](const In & p) { return mul(tr(R.r(p), 2, 3), r(p), 3, 2, 2); }, "transpose " + R.n + " " + a.n));
        for_tuple(twos, [&](const auto & b) {
            auto s = b.r;
            test<1 + deep, false>(ex(a.f * b.f, [r, s](const In & p) { return mul(r(p), s(p), 2, 2, 2); }, a.n + " " + b.n));
            test<1, false>(ex(a.f + b.f, [r, s](const In & p) { return zip(r(p), s(p), [](auto x, auto y) { return x + y; }); }, a.n + " + " + b.n));
            test<1, false>(ex(a.f - b.f, [r, s](const In & p) { return zip(r(p), s(p), [](auto x, auto y) { return x - y; }); }, a.n + " - " + b.n));
            test<1, false>(ex(mf::transpose(a.f * b.f), [r, s](const In & p) { return tr(mul(r(p), s(p), 2, 2, 2), 2, 2); }, "transpose (" + a.n + " " + b.n + ")"));
        });
        for_tuple(some<2>(v2), [&](const auto & v) {
            auto s = v.r;
            test<1 + deep, false>(ex(a.f * v.f, [r, s](const In & p) { return mul(r(p), s(p), 2, 2, 1); }, a.n + " " + v.n));
            test<1, true>(ex(K * v.f, [K, s](const In & p) { return mul(constants(flat(K)), s(p), 2, 2, 1); }, "K " + v.n));
        });
        test<1, false>(ex(a.f * vc<2>(), [r](const In & p) { return mul(r(p), constants(flat(vc<2>())), 2, 2, 1); }, a.n + " v"));
    });
    test<1 + deep, false>(R);
    test<1 + deep, false>(ex(mf::transpose(R.f), [R](const In & p) { return tr(R.r(p), 2, 3); }, "transpose " + R.n));
    for_tuple(some<2>(v3), [&](const auto & v) { test<1 + deep, false>(ex(R.f * v.f, [R, s = v.r](const In & p) { return mul(R.r(p), s(p), 2, 3, 1); }, R.n + " " + v.n)); });
    test<0>(one(mf::determinant(T3.f), [T3](const In & p) { return det(T3.r(p)); }, "determinant " + T3.n));
    test<0>(ex(mf::inverse(T3.f) * T3.f, [T3](const In & p) {
        J d = inv(det(T3.r(p)));
        std::vector<J> r = constants({ 1, 0, 0, 0, 1, 0, 0, 0, 1 });
        for (auto & x : r) {
            x.bad = d.bad;
            x.m = d.m;
            if (d.bad) x.v = NAN;
        }
        return r;
    }, "inverse times " + T3.n));
}
// one operation, on arguments of every size, to relative precision
static void extremes()
{
    const auto x = Leaves<V2>::x0();
    each(Unary {}, [&](auto u) {
        const auto e = un(u, x);
        const auto d = mf::derivative<0>(e.f);
        const auto dd = mf::derivative<0>(d);
        mc::for_case(e.n + " on arguments of every size", [&] {
            for (double size : { 1e-60, 1e-17, 1e-12, 3e-9, 2e-5, 1e-3, 7., 900., 4e5, 2e9, 1e13, 1e60 })
                for (int sign : { 1, -1 }) {
                    In in;
                    in[0] = C(sign * size), in[1] = C(0.5), in[0].g[0] = 1;
                    const J want = e.r(in)[0];
                    const V2 at { sign * size, 0.5 };
                    auto is = [&](double got, double ref, const char * what) {
                        // an argument outside the domain, or too large a value
                        if (!std::isfinite(ref) || !std::isfinite(want.v)) return;
                        mc::require(std::abs(got - ref) <= 1e-9 * std::abs(ref), what, "%s at %g is %.15g instead of %.15g", what, sign * size, got, ref);
                        mc::transition();
                    };
                    is(e.f(at), want.v, "value");
                    is(d(at), want.g[0], "derivative");
                    // what vanishes but for what is cut off is not compared
                    if (std::abs(want.h[0][0]) > 1e-14 * std::abs(want.g[0])) is(dd(at), want.h[0][0], "second derivative");
                }
            mc::evaluation(true, mc::hash_str(mc::current));
        });
    });
}
// matrices of every size, to relative precision
template <int N> static void small_matrices()
{
    using M = mt::matrix_t<N>;
    const double entries[3][9] = { { 2, 1, 0.5, -1, 3, 0.25, 0.5, -0.75, 4 }, { 0, 1, 2, 3, 0, 1, 1, 1, 0 }, { -1, 0.5, 0, 0.125, -3, 1, 2, 0, 1 } };
    mc::for_case(mc::fmt("matrices of size %d, of entries of every size", N), [&] {
        for (auto & row : entries) {
            M m;
            for (int i = 0; i < N; ++i)
                for (int j = 0; j < N; ++j) m[{ i, j }] = row[3 * i + j];
            auto f = mf::function([m](const V2 & x) -> M { return x[0] * m; });
            auto inverse = mf::inverse(f);
            auto determinant = mf::determinant(f);
            const double d0 = mt::determinant(m);
            const M i0 = mt::inverse(m);
            for (double s : { 1e-30, 1e-9, 1e-5, 1e-3, 1., 1e4, 1e9, 1e30 })
                for (int sign : { 1, -1 }) {
                    const V2 at { sign * s, 0. };
                    const double d = determinant(at), want = d0 * std::pow(sign * s, N);
                    mc::require(std::abs(d - want) <= 1e-10 * std::abs(want), "determinant", "the determinant of a matrix scaled by %g is %.15g instead of %.15g", sign * s, d, want);
                    const M i = inverse(at);
                    for (int a = 0; a < N; ++a)
                        for (int b = 0; b < N; ++b) {
                            const double v = i[{ a, b }] * sign * s, w = i0[{ a, b }];
                            mc::require(std::abs(v - w) <= 1e-9, "inverse", "entry (%d, %d) of the inverse of a matrix scaled by %g is %.15g times what it should be", a, b, sign * s, v / w);
                        }
                    mc::transition(2);
                }
        }
        mc::evaluation(true, mc::hash_str(mc::current));
    });
}
// functions made of functors
static void functors()
{
    auto f = mf::function([](const V2 & x) { return x[0] * x[1] - 0.5; });
    auto g = mf::function([](const V2 & x) -> V2 { return V2 { x[1], 2. * x[0] }; });
    auto s = mf::function([](double t) { return t * t + 1; });
    auto F = one(f, [](const In & x) { return x[0] * x[1] - C(0.5); }, "functor");
    auto G = ex(g, [](const In & x) { return std::vector<J> { x[1], C(2) * x[0] }; }, "vector functor");
    test<0>(F);
    test<0>(G);
    for (int i = 0; i < 2; ++i) test<0>(at(G, i));
    test<0>(one(s(f), [F](const In & x) { return j_pow(F.r(x)[0], 2) + C(1); }, "functor of functor"));
    test<0>(one(f(g), [](const In & x) { return C(2) * x[0] * x[1] - C(0.5); }, "functor of vector functor"));
    test<0>(one(mf::sin(f), [F](const In & x) { return j_sin(F.r(x)[0]); }, "sin of functor"));
    for_tuple(Leaves<V2>::forms(), [&](const auto & a) {
        test<0>(sum(F, a));
        test<0>(difference(a, F));
        test<0>(product(F, a));
        test<0>(quotient(a, F));
        test<0>(ex(a.f * g, [G, r = a.r](const In & x) { return scale(r(x)[0], G.r(x)); }, a.n + " * vector functor"));
        test<0>(one(a.f(g), [G, r = a.r](const In & x) { auto v = G.r(x); In q; q[0] = v[0], q[1] = v[1]; return r(q)[0]; }, a.n + " of vector functor"));
    });
}

int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C20");
#if IN_FOCUS(1)
    // chains of operations in one argument
    each(Unary {}, [](auto u) {
        auto x = Leaves<V2>::x0();
        auto y = Leaves<V2>::last();
        test<2>(un(u, x));
        test<1 + deep, deep>(un(u, y));
        test<1 + deep, deep>(un(u, Leaves<V2>::constant()));
        test<2, false>(un(u, Leaves<V1>::x0()));
        if constexpr (deep) each(Unary {}, [&](auto w) { test<1, false>(un(w, un(u, product(x, y)))); });
        else each(List<Sin, CMinus, COver> {}, [&](auto w) { test<1, false>(un(w, un(u, product(x, y)))); });
    });
#endif
#if IN_FOCUS(2)
    pairs<V2, 1 + deep>();
    functors();
    extremes();
    small_matrices<2>();
    small_matrices<3>();
#endif
#if IN_FOCUS(3)
    triples<V2>();
#endif
#if IN_FOCUS(4)
    compositions<V1>();
    if (deep) compositions<V3>();
#endif
#if IN_FOCUS(5)
    vector_valued<V2, 2>();
#endif
#if IN_FOCUS(6)
    of_vectors<V2, 3>();
    if constexpr (deep) of_vectors<V2, 2>();
#endif
#if IN_FOCUS(7)
    matrix_valued<V2>();
#endif
#if IN_FOCUS(8)
    if constexpr (deep) vector_valued<V2, 3>();
    vector_valued<V1, 2>();
#endif
    return mc::finish();
}
