// C11: exterior algebra. Every one-form and vector over a small lattice, in every slot.
// The coefficients are small integers, so that floating point arithmetic is exact, or integer multiples
// of units in which it is not.
#include "mc.h"
#include <mito/tensor.h>
using namespace mito::tensor;
using mito::tensor::_;

template <int D>
using V = std::array<int, D>;
template <int D>
using M = std::array<std::array<int, D>, D>;

// the units of one-forms and of vectors, and of scalars
static double U = 1, X = 1, R = 1;
static bool exact() { return U == 1 && X == 1 && R == 1; }
template <int D>
static vector_t<D> vec(const V<D> & v)
{
    vector_t<D> r;
    for (int i = 0; i < D; ++i) r[i] = v[i] * X;
    return r;
}
template <int D>
static vector_t<D> covec(const V<D> & v)
{
    vector_t<D> r;
    for (int i = 0; i < D; ++i) r[i] = v[i] * U;
    return r;
}
template <int D>
static std::string str(const V<D> & v)
{
    std::string r = "(";
    for (int i = 0; i < D; ++i) r += (i ? " " : "") + std::to_string(v[i]);
    return r + ")";
}
template <int D>
static std::vector<V<D>> lattice(int lo, int hi)
{
    std::vector<V<D>> r;
    int n = 1, w = hi - lo + 1;
    for (int i = 0; i < D; ++i) n *= w;
    for (int c = 0; c < n; ++c) {
        V<D> v;
        for (int i = 0, x = c; i < D; ++i, x /= w) v[i] = lo + x % w;
        r.push_back(v);
    }
    return r;
}
template <int D>
static int dot(const V<D> & a, const V<D> & b)
{
    int r = 0;
    for (int i = 0; i < D; ++i) r += a[i] * b[i];
    return r;
}
static int det2(int a, int b, int c, int d) { return a * d - b * c; }

// ({n}: of how many one-forms)
template <int n = 1>
static void eq(double got, double want, const char * what, const std::string & ctx)
{
    double unit = 1;
    for (int i = 0; i < n; ++i) unit *= U * X;
    mc::require(exact() ? got == want : std::abs(got - want * unit) <= 1e-11 * (10 + std::abs(want)) * std::abs(unit), "value", "%s of %s is %.15g, should be %.15g", what, ctx.c_str(), got, want * unit);
}
#define CASE(text, n)                                                                              \
    const std::string ctx = text;                                                                  \
    mc::evaluation(true, mc::hash_str(ctx));

// one-forms, with and without a metric
template <int D>
static void one_forms()
{
    auto L = lattice<D>(D == 3 ? -1 : -2, 2);
    auto S = lattice<D == 3 ? 6 : 3>(D == 3 ? 0 : -1, D == 3 ? 1 : 2);
    for (auto & a : L)
        mc::for_case(mc::fmt("one-form D=%d unit %g %s", D, U, str<D>(a).c_str()), [&] {
            const auto va = covec<D>(a);
            auto plain = one_form(va);
            auto euclid = one_form(va, mito::tensor::identity<D>);
            for (auto & x : L) {
                CASE(mc::fmt("%s on %s", str<D>(a).c_str(), str<D>(x).c_str()), 0)
                const auto vx = vec<D>(x);
                eq(plain(vx), dot<D>(a, x), "the one-form", ctx);
                eq(euclid(vx), dot<D>(a, x), "the Euclidean one-form", ctx);
                eq(plain(_)(vx), dot<D>(a, x), "the uncontracted one-form", ctx);
                eq((-plain)(vx), -dot<D>(a, x), "the negative one-form", ctx);
                eq(((3 * R) * plain)(vx), 3 * R * dot<D>(a, x), "scalar times one-form", ctx);
                eq((plain * (3 * R))(vx), 3 * R * dot<D>(a, x), "one-form times scalar", ctx);
                eq(wedge(plain)(vx), dot<D>(a, x), "the wedge of a single one-form", ctx);
                eq(wedge(2 * R, plain)(vx), 2 * R * dot<D>(a, x), "scalar wedge one-form", ctx);
                eq(wedge(plain, 2 * R)(vx), 2 * R * dot<D>(a, x), "one-form wedge scalar", ctx);
            }
            for (auto & s : S) {
                M<D> m;
                symmetric_matrix_t<D> sm;
                diagonal_matrix_t<D> dm;
                for (int i = 0, k = 0; i < D; ++i)
                    for (int j = i; j < D; ++j, ++k) m[i][j] = m[j][i] = s[k];
                for (int i = 0; i < D; ++i) {
                    for (int j = i; j < D; ++j) sm[{ i, j }] = m[i][j] * R;
                    dm[{ i, i }] = m[i][i] * R;
                }
                auto f = one_form(va, sm);
                auto g = one_form(va, dm);
                for (auto & x : L) {
                    mc::bump(mc::S->evaluations);
                    const auto vx = vec<D>(x);
                    int w = 0, d = 0;
                    for (int i = 0; i < D; ++i) {
                        d += m[i][i] * a[i] * x[i];
                        for (int j = 0; j < D; ++j) w += a[i] * m[i][j] * x[j];
                    }
                    auto ctx = str<D>(a) + " on " + str<D>(x);
                    eq(f(vx), R * w, "the one-form with symmetric metric", ctx);
                    eq(g(vx), R * d, "the one-form with diagonal metric", ctx);
                }
            }
        });
}

// sums and differences, tensor and wedge products of two one-forms
template <int D>
static void two_forms(int lo, int hi)
{
    auto L = lattice<D>(lo, hi);
    for (auto & a : L)
        for (auto & b : L)
            mc::for_case(mc::fmt("two-form D=%d unit %g %s %s", D, U, str<D>(a).c_str(), str<D>(b).c_str()), [&] {
                const auto va = covec<D>(a), vb = covec<D>(b);
                auto f = one_form(va), g = one_form(vb);
                auto t = mito::tensor::tensor(f, g);
                auto t2 = f * g;
                auto w = wedge(f, g);
                auto lin = f + (2 * R) * g;
                auto dif = f - g;
                auto sw = (2 * R) * w - w * (3 * R);
                auto sum = w + t;
                auto w2 = wedge(3 * R, w);
                auto w3 = wedge(w, 3 * R);
                for (auto & x : L) {
                    const auto vx = vec<D>(x);
                    int fx = dot<D>(a, x), gx = dot<D>(b, x);
                    eq(lin(vx), fx + 2 * R * gx, "a + 2 b", "one-forms");
                    eq(dif(vx), fx - gx, "a - b", "one-forms");
                    auto tx = t(vx, _);
                    auto wx = w(vx, _);
                    for (auto & y : L) {
                        CASE(mc::fmt("%s, %s on %s, %s", str<D>(a).c_str(), str<D>(b).c_str(),
                                     str<D>(x).c_str(), str<D>(y).c_str()), 0)
                        const auto vy = vec<D>(y);
                        int fy = dot<D>(a, y), gy = dot<D>(b, y);
                        int W = fx * gy - fy * gx;
                        eq<2>(t(vx, vy), fx * gy, "the tensor product", ctx);
                        eq<2>(t2(vx, vy), fx * gy, "the product", ctx);
                        eq<2>(w(vx, vy), W, "the wedge product", ctx);
                        eq<2>(tx(vy), fx * gy, "the tensor product contracted with its first argument", ctx);
                        eq<2>(t(_, vy)(vx), fx * gy, "the tensor product contracted with its second argument", ctx);
                        eq<2>(t(_, _)(vx, vy), fx * gy, "the uncontracted tensor product", ctx);
                        eq<2>(wx(vy), W, "the wedge product contracted with its first argument", ctx);
                        eq<2>(w(_, vy)(vx), W, "the wedge product contracted with its second argument", ctx);
                        eq<2>(w(_, _)(vx, vy), W, "the uncontracted wedge product", ctx);
                        eq<2>(sw(vx, vy), -R * W, "2 w - w 3", ctx);
                        eq<2>(sum(vx, vy), W + fx * gy, "w + t", ctx);
                        eq<2>((-w)(vx, vy), -W, "-w", ctx);
                        eq<2>(w2(vx, vy), 3 * R * W, "3 wedge w", ctx);
                        eq<2>(w3(vx, vy), 3 * R * W, "w wedge 3", ctx);
                    }
                }
            });
}

// products of three one-forms
static void three_forms()
{
    std::vector<V<3>> L = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, 2, 0 }, { -1, 0, 3 }, { 2, -1, 1 } };
    if (mc::thorough()) L.insert(L.end(), { { 0, 0, 0 }, { 1, 1, 1 }, { 3, -2, 0 }, { 0, 2, -1 } });
    for (auto & a : L)
        for (auto & b : L)
            for (auto & c : L)
                mc::for_case(mc::fmt("three-form unit %g %s %s %s", U, str<3>(a).c_str(), str<3>(b).c_str(), str<3>(c).c_str()), [&] {
                    const auto va = covec<3>(a), vb = covec<3>(b), vc = covec<3>(c);
                    auto f = one_form(va), g = one_form(vb), h = one_form(vc);
                    auto t = mito::tensor::tensor(f, g, h);
                    auto w = wedge(f, g, h);
                    auto m = wedge(f, wedge(g, h));
                    auto s = (2 * R) * w - w;
                    for (auto & x : L)
                        for (auto & y : L)
                            for (auto & z : L) {
                                CASE(mc::fmt("%s, %s, %s on %s, %s, %s", str<3>(a).c_str(), str<3>(b).c_str(),
                                             str<3>(c).c_str(), str<3>(x).c_str(), str<3>(y).c_str(), str<3>(z).c_str()), 0)
                                const auto vx = vec<3>(x), vy = vec<3>(y), vz = vec<3>(z);
                                int A[3][3];
                                const V<3> *F[3] = { &a, &b, &c }, *X[3] = { &x, &y, &z };
                                for (int i = 0; i < 3; ++i)
                                    for (int j = 0; j < 3; ++j) A[i][j] = dot<3>(*F[i], *X[j]);
                                int T = A[0][0] * A[1][1] * A[2][2];
                                int W = A[0][0] * det2(A[1][1], A[1][2], A[2][1], A[2][2])
                                      - A[0][1] * det2(A[1][0], A[1][2], A[2][0], A[2][2])
                                      + A[0][2] * det2(A[1][0], A[1][1], A[2][0], A[2][1]);
                                eq<3>(t(vx, vy, vz), T, "the tensor product", ctx);
                                eq<3>(t(vx, _, _)(vy, vz), T, "the tensor product, first argument fixed,", ctx);
                                eq<3>(t(_, vy, _)(vx, vz), T, "the tensor product, second argument fixed,", ctx);
                                eq<3>(t(_, _, vz)(vx, vy), T, "the tensor product, third argument fixed,", ctx);
                                eq<3>(t(vx, vy, _)(vz), T, "the tensor product, first two arguments fixed,", ctx);
                                eq<3>(t(vx, _, vz)(vy), T, "the tensor product, outer arguments fixed,", ctx);
                                eq<3>(t(_, vy, vz)(vx), T, "the tensor product, last two arguments fixed,", ctx);
                                eq<3>(w(vx, vy, vz), W, "the wedge product", ctx);
                                eq<3>(w(vx, _, _)(vy, vz), W, "the wedge product, first argument fixed,", ctx);
                                eq<3>(w(_, vy, _)(vx, vz), W, "the wedge product, second argument fixed,", ctx);
                                eq<3>(w(_, _, vz)(vx, vy), W, "the wedge product, third argument fixed,", ctx);
                                eq<3>(w(vx, vy, _)(vz), W, "the wedge product, first two arguments fixed,", ctx);
                                eq<3>(w(vx, _, vz)(vy), W, "the wedge product, outer arguments fixed,", ctx);
                                eq<3>(w(_, vy, vz)(vx), W, "the wedge product, last two arguments fixed,", ctx);
                                eq<3>(m(vx, vy, vz), W, "the wedge product of a one-form and a two-form", ctx);
                                eq<3>(m(vx, _, _)(vy, vz), W, "the wedge product of a one-form and a two-form, first argument fixed,", ctx);
                                eq<3>(m(_, vy, _)(vx, vz), W, "the wedge product of a one-form and a two-form, second argument fixed,", ctx);
                                eq<3>(m(_, _, vz)(vx, vy), W, "the wedge product of a one-form and a two-form, third argument fixed,", ctx);
                                eq<3>(m(vx, vy, _)(vz), W, "the wedge product of a one-form and a two-form, first two arguments fixed,", ctx);
                                eq<3>(m(vx, _, vz)(vy), W, "the wedge product of a one-form and a two-form, outer arguments fixed,", ctx);
                                eq<3>(m(_, vy, vz)(vx), W, "the wedge product of a one-form and a two-form, last two arguments fixed,", ctx);
                                eq<3>(m(_, _, _)(vx, vy, vz), W, "the wedge product of a one-form and a two-form, no argument fixed,", ctx);
                                eq<3>(w(_, _, _)(vx, vy, vz), W, "the wedge product, no argument fixed,", ctx);
                                eq<3>(t(_, _, _)(vx, vy, vz), T, "the tensor product, no argument fixed,", ctx);
                                eq<3>(w(_, vy, _)(_, vz)(vx), W, "the wedge product, fixed from the middle,", ctx);
                                eq<3>(w(_, _, vz)(vx, _)(vy), W, "the wedge product, fixed from the end,", ctx);
                                eq<3>(m(_, vy, _)(_, vz)(vx), W, "the wedge product of a one-form and a two-form, fixed from the middle,", ctx);
                                eq<3>(s(vx, vy, vz), (2 * R - 1) * W, "2 w - w", ctx);
                            }
                });
}

// the basis vectors and elementary matrices the library provides
template <int D>
static void basis()
{
    mc::for_case(mc::fmt("basis D=%d", D), [&] {
        [&]<int... I>(std::integer_sequence<int, I...>) {
            ([&] {
                for (int j = 0; j < D; ++j) eq(e<I, D>[j], I == j, "the basis vector", std::to_string(I));
            }(), ...);
        }(std::make_integer_sequence<int, D> {});
        for (int i = 0; i < D; ++i)
            for (int j = 0; j < D; ++j) {
                double v = mito::tensor::identity<D>[{ i, j }];
                eq(v, i == j, "the identity", std::to_string(i) + std::to_string(j));
            }
        auto m = [&](auto E, int k, int l) {
            for (int i = 0; i < D; ++i)
                for (int j = 0; j < D; ++j) eq(E[{ i, j }], i == k && j == l, "the elementary matrix", mc::fmt("%d%d", k, l));
        };
        auto b = [&](auto E, int k) {
            for (int i = 0; i < D; ++i) eq(E[i], i == k, "the basis vector", std::to_string(k));
        };
        b(e_0<D>, 0);
        if constexpr (D > 1) b(e_1<D>, 1);
        if constexpr (D > 2) b(e_2<D>, 2);
        m(e_00<D>, 0, 0);
        if constexpr (D > 1) m(e_01<D>, 0, 1), m(e_10<D>, 1, 0), m(e_11<D>, 1, 1);
        if constexpr (D > 2) m(e_02<D>, 0, 2), m(e_20<D>, 2, 0), m(e_12<D>, 1, 2), m(e_21<D>, 2, 1), m(e_22<D>, 2, 2);
    });
}

int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C11");
    basis<1>(), basis<2>(), basis<3>();
    const double units[][3] = { { 1, 1, 1 }, { 1 + 0x1p-30, 1 - 0x1p-31, 0.75 + 0x1p-29 }, { 1e-8 / 3, 1e9 / 7, -0.1 }, { 1e10 / 3, 1e-7 / 11, 0.5 } };
    for (auto & u : units) {
        U = u[0], X = u[1], R = u[2];
        one_forms<2>();
        one_forms<3>();
        two_forms<2>(mc::pick(-1, -2), 2);
        two_forms<3>(mc::pick(0, -1), mc::pick(1, 1));
        three_forms();
    }
    return mc::finish();
}
