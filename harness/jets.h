// Expressions made of mito's functions, each with a second-order Taylor expansion computed here.
#pragma once
#include "mc.h"
#include <mito/functions.h>
namespace mf = mito::functions;
namespace mt = mito::tensor;
// DEEP adds the combinations that only repeat what the others do in other places
#ifdef DEEP
constexpr bool deep = true;
#else
constexpr bool deep = false;
#endif

// value, gradient and Hessian in up to three variables
struct J {
    double v = 0, g[3] = {}, h[3][3] = {};
    bool bad = false;    // not differentiable here, or nearly so
    double m = 0;        // the magnitude of everything that went in
    void grow()
    {
        m = std::max(m, std::abs(v));
        for (int i = 0; i < 3; ++i) {
            m = std::max(m, std::abs(g[i]));
            for (int k = 0; k < 3; ++k) m = std::max(m, std::abs(h[i][k]));
        }
    }
};
static J chain(const J & a, double f, double f1, double f2, bool bad = false)
{
    J r;
    r.v = f;
    for (int i = 0; i < 3; ++i) {
        r.g[i] = f1 * a.g[i];
        for (int k = 0; k < 3; ++k) r.h[i][k] = f1 * a.h[i][k] + f2 * a.g[i] * a.g[k];
    }
    r.bad = a.bad || bad;
    r.m = a.m;
    r.grow();
    return r;
}
static J C(double c) { J r; r.v = r.m = c; r.m = std::abs(c); return r; }
static J operator+(const J & a, const J & b)
{
    J r;
    r.v = a.v + b.v;
    for (int i = 0; i < 3; ++i) {
        r.g[i] = a.g[i] + b.g[i];
        for (int k = 0; k < 3; ++k) r.h[i][k] = a.h[i][k] + b.h[i][k];
    }
    r.bad = a.bad || b.bad;
    r.m = std::max(a.m, b.m);
    r.grow();
    return r;
}
static J operator*(const J & a, const J & b)
{
    J r;
    r.v = a.v * b.v;
    for (int i = 0; i < 3; ++i) {
        r.g[i] = a.g[i] * b.v + a.v * b.g[i];
        for (int k = 0; k < 3; ++k) r.h[i][k] = a.h[i][k] * b.v + a.g[i] * b.g[k] + a.g[k] * b.g[i] + a.v * b.h[i][k];
    }
    r.bad = a.bad || b.bad;
    r.m = std::max(a.m, b.m);
    r.grow();
    return r;
}
static J inv(const J & a) { return chain(a, 1 / a.v, -1 / (a.v * a.v), 2 / (a.v * a.v * a.v), std::abs(a.v) < 0.05); }
static J operator-(const J & a) { return C(-1) * a; }
static J operator-(const J & a, const J & b) { return a + (-b); }
static J operator/(const J & a, const J & b) { return a * inv(b); }
static J j_sin(const J & a) { return chain(a, std::sin(a.v), std::cos(a.v), -std::sin(a.v)); }
static J j_cos(const J & a) { return chain(a, std::cos(a.v), -std::sin(a.v), -std::cos(a.v)); }
static J j_tan(const J & a)
{
    double t = std::tan(a.v), s = 1 + t * t;
    return chain(a, t, s, 2 * t * s, std::abs(std::cos(a.v)) < 0.05);
}
static J j_asin(const J & a)
{
    double q = 1 - a.v * a.v;
    return chain(a, std::asin(a.v), std::pow(q, -0.5), a.v * std::pow(q, -1.5), q < 0.05);
}
static J j_acos(const J & a)
{
    double q = 1 - a.v * a.v;
    return chain(a, std::acos(a.v), -std::pow(q, -0.5), -a.v * std::pow(q, -1.5), q < 0.05);
}
static J j_atan(const J & a)
{
    double q = 1 + a.v * a.v;
    return chain(a, std::atan(a.v), 1 / q, -2 * a.v / (q * q));
}
static J j_exp(const J & a) { return chain(a, std::exp(a.v), std::exp(a.v), std::exp(a.v), a.v > 10); }
static J j_log(const J & a) { return chain(a, std::log(a.v), 1 / a.v, -1 / (a.v * a.v), a.v < 0.05); }
static J j_sqrt(const J & a) { return chain(a, std::sqrt(a.v), 0.5 / std::sqrt(a.v), -0.25 * std::pow(a.v, -1.5), a.v < 0.05); }
static J j_cbrt(const J & a)
{
    double c = std::cbrt(a.v);
    return chain(a, c, 1 / (3 * c * c), -2 / (9 * c * c * c * c * c), std::abs(a.v) < 0.05);
}
static J j_pow(const J & a, int n) { return chain(a, std::pow(a.v, n), n * std::pow(a.v, n - 1), n < 2 ? 0. : n * (n - 1) * std::pow(a.v, n - 2)); }

// an expression: the function and its reference, for a given variable, components in row order
using In = std::array<J, 3>;
using Ref = std::function<std::vector<J>(const In &)>;
template <class F>
struct Ex {
    F f;
    Ref r;
    std::string n;
};
template <class F> static Ex<F> ex(const F & f, Ref r, std::string n) { return { f, r, n }; }
static Ref lift(std::function<J(const In &)> r) { return [r](const In & x) { return std::vector<J> { r(x) }; }; }
static Ref lift(J (*op)(const J &), Ref r) { return [op, r](const In & x) { return std::vector<J> { op(r(x)[0]) }; }; }
static Ref lift(J (*op)(const J &, const J &), Ref r, Ref s) { return [op, r, s](const In & x) { return std::vector<J> { op(r(x)[0], s(x)[0]) }; }; }
template <class F> static auto one(const F & f, std::function<J(const In &)> r, std::string n) { return Ex<F> { f, lift(r), n }; }

// the components of a value
template <class T> static std::vector<double> flat(const T & y)
{
    if constexpr (std::is_convertible_v<T, double>) return { double(y) };
    else {
        std::vector<double> r;
        if constexpr (mt::matrix_c<T>) {
            for (int i = 0; i < T::dims[0]; ++i)
                for (int k = 0; k < T::dims[1]; ++k) r.push_back(y[{ i, k }]);
        } else
            for (int i = 0; i < T::size; ++i) r.push_back(y[i]);
        return r;
    }
}
template <class X> struct Dim { static constexpr int d = 1; static X make(const double * x) { return x[0]; } };
template <class X> requires(requires { X::size; }) struct Dim<X> {
    static constexpr int d = X::size;
    static X make(const double * x) { X r; for (int i = 0; i < d; ++i) r[i] = x[i]; return r; }
};
template <class X> requires(requires { X::dim; } && !requires { X::size; }) struct Dim<X> {
    static constexpr int d = X::dim;
    static X make(const double * x)
    {
        mito::tensor::vector_t<d> r;
        for (int i = 0; i < d; ++i) r[i] = x[i];
        return X(r);
    }
};
static const std::vector<double> & values()
{
    static const std::vector<double> quick { -1.75, -0.5, 0., 0.3, 0.8125, 1.5 }, deep { -3., -1.75, -1., -0.5, -0.125, 0., 0.3, 0.5, 0.8125, 1., 1.5, 2., 3.25 };
    return mc::thorough() ? deep : quick;
}
template <class X> static std::vector<std::array<double, 3>> lattice()
{
    std::vector<std::array<double, 3>> r;
    for (double a : values()) {
        if (Dim<X>::d == 1) { r.push_back({ a, 0, 0 }); continue; }
        for (double b : values()) {
            if (Dim<X>::d == 2) { r.push_back({ a, b, 0 }); continue; }
            for (double c : values()) r.push_back({ a, b, c });
        }
    }
    return r;
}
// an expression without its types: how to evaluate it, and its derivatives
using Eval = std::function<std::vector<double>(const double *)>;
struct Thing {
    std::string name;
    Ref ref;
    int D;
    Eval value, copy, matrix;
    std::vector<Eval> first, second;
    std::vector<std::array<double, 3>> points;
};
static void compare(const std::vector<double> & g, const std::vector<double> & want, double scale, const char * what, const std::array<double, 3> & x)
{
    mc::require(g.size() == want.size(), "shape", "%s has %zu components instead of %zu", what, g.size(), want.size());
    for (size_t i = 0; i < g.size(); ++i)
        mc::require(std::abs(g[i] - want[i]) <= 1e-11 * (1 + scale), what, "%s, component %zu, at (%g %g %g) is %.15g instead of %.15g", what, i, x[0], x[1], x[2], g[i], want[i]);
}
static void run(const Thing & e)
{
    mc::for_case(e.name, [&] {
        bool any = false;
        for (auto & p : e.points) {
            In in;
            for (int i = 0; i < e.D; ++i) {
                in[i] = C(p[i]);
                in[i].g[i] = 1;
                in[i].grow();
            }
            auto want = e.ref(in);
            bool finite = true, bad = false;
            double m = 0;
            std::vector<double> v;
            for (auto & w : want) {
                finite = finite && std::isfinite(w.v);
                bad = bad || w.bad || !std::isfinite(w.m);
                m = std::max(m, w.m);
                v.push_back(w.v);
            }
            if (!finite || (!bad && m > 1e7)) continue;
            auto y = e.value(p.data());
            compare(y, v, bad ? std::abs(v[0]) * 1e4 : m, "value", p);
            // a second evaluation, and one of a copy
            mc::require(e.copy(p.data()) == y && e.value(p.data()) == y, "copy", "a copy of the function has another value");
            if (bad) continue;
            any = true;
            for (size_t i = 0; i < e.first.size(); ++i) {
                std::vector<double> w;
                for (auto & j : want) w.push_back(j.g[i]);
                compare(e.first[i](p.data()), w, m, mc::fmt("derivative %zu", i).c_str(), p);
            }
            for (size_t i = 0; i < e.second.size(); ++i) {
                std::vector<double> w;
                for (auto & j : want) w.push_back(j.h[i / e.D][i % e.D]);
                compare(e.second[i](p.data()), w, m, mc::fmt("second derivative %zu %zu", i / e.D, i % e.D).c_str(), p);
            }
            if (e.matrix) {
                std::vector<double> w;
                for (auto & j : want)
                    for (int i = 0; i < e.D; ++i) w.push_back(j.g[i]);
                compare(e.matrix(p.data()), w, m, "matrix of derivatives", p);
            }
            mc::transition();
        }
        mc::evaluation(any, mc::hash_str(e.name));
    });
}
template <class F> struct Evaluator {
    F f;
    std::vector<double> operator()(const double * p) const { return flat(f(Dim<typename F::input_type>::make(p))); }
};
template <class F> static Eval eval(const F & f) { return Evaluator<F> { f }; }
template <int I, class F, size_t... K> static void seconds(Thing & t, const F & df, std::index_sequence<K...>) { (t.second.push_back(eval(mf::derivative<K>(df))), ...); }
template <int I, int order, class F> static void derive(Thing & t, const F & f)
{
    const auto df = mf::derivative<I>(f);
    t.first.push_back(eval(df));
    if constexpr (order > 1) seconds<I>(t, df, std::make_index_sequence<Dim<typename F::input_type>::d> {});
}
template <int order, class F, size_t... I> static void firsts(Thing & t, const F & f, std::index_sequence<I...>) { (derive<I, order>(t, f), ...); }
// {order}: derivatives up to this order, {matrix}: also all the derivatives together
template <int order = 2, bool matrix = true, class F> static void test(const Ex<F> & e)
{
    using X = typename F::input_type;
    Thing t;
    t.name = e.n;
    t.ref = e.r;
    t.D = Dim<X>::d;
    t.value = eval(e.f);
    F copy(e.f);
    t.copy = eval(copy);
    t.points = lattice<X>();
    if constexpr (order > 0) firsts<order>(t, e.f, std::make_index_sequence<Dim<X>::d> {});
    if constexpr (order > 0 && matrix) {
        const auto df = mf::derivative(e.f);
        t.matrix = eval(df);
    }
    run(t);
}

// the operations in one argument
#define UNARY(NAME, TEXT, FE, JE)                                              \
    struct NAME {                                                              \
        template <class F> static auto f(const F & a) { return FE; }           \
        static J j(const J & a) { return JE; }                                 \
        static std::string s(const std::string & a) { return mc::fmt(TEXT, a.c_str()); } \
    };
UNARY(Sin, "sin(%s)", mf::sin(a), j_sin(a))
UNARY(Cos, "cos(%s)", mf::cos(a), j_cos(a))
UNARY(Tan, "tan(%s)", mf::tan(a), j_tan(a))
UNARY(Asin, "asin(%s)", mf::asin(a), j_asin(a))
UNARY(Acos, "acos(%s)", mf::acos(a), j_acos(a))
UNARY(Atan, "atan(%s)", mf::atan(a), j_atan(a))
UNARY(Exp, "exp(%s)", mf::exp(a), j_exp(a))
UNARY(Log, "log(%s)", mf::log(a), j_log(a))
UNARY(Sqrt, "sqrt(%s)", mf::sqrt(a), j_sqrt(a))
UNARY(Cbrt, "cbrt(%s)", mf::cbrt(a), j_cbrt(a))
UNARY(Pow1, "pow<1>(%s)", mf::pow<1>(a), j_pow(a, 1))
UNARY(Pow2, "pow<2>(%s)", mf::pow<2>(a), j_pow(a, 2))
UNARY(Pow5, "pow<5>(%s)", mf::pow<5>(a), j_pow(a, 5))
UNARY(Neg, "-(%s)", -a, -a)
UNARY(PlusC, "(%s + 2)", a + 2.0, a + C(2))
UNARY(CPlus, "(3 + %s)", 3.0 + a, C(3) + a)
UNARY(MinusC, "(%s - 0.5)", a - 0.5, a - C(0.5))
UNARY(CMinus, "(0.5 - %s)", 0.5 - a, C(0.5) - a)
UNARY(TimesC, "(%s * 3)", a * 3.0, C(3) * a)
UNARY(CTimes, "(0.5 * %s)", 0.5 * a, C(0.5) * a)
UNARY(OverC, "(%s / 4)", a / 4.0, C(0.25) * a)
UNARY(COver, "(2 / %s)", 2.0 / a, C(2) / a)
template <class... T> struct List {};
using Unary = List<Sin, Cos, Tan, Asin, Acos, Atan, Exp, Log, Sqrt, Cbrt, Pow1, Pow2, Pow5, Neg, PlusC, CPlus, MinusC, CMinus, TimesC, CTimes, OverC, COver>;
template <class... T> static void each(List<T...>, auto && body) { (body(T {}), ...); }
template <class Op, class F> static auto un(Op, const Ex<F> & a)
{
    return ex(Op::f(a.f), lift(&Op::j, a.r), Op::s(a.n));
}
// the operations in two arguments
#define BINARY(NAME, OP)                                                       \
    static J j_##NAME(const J & a, const J & b) { return a OP b; }             \
    template <class F, class G> static auto NAME(const Ex<F> & a, const Ex<G> & b) { return ex(a.f OP b.f, lift(j_##NAME, a.r, b.r), "(" + a.n + " " #OP " " + b.n + ")"); }
BINARY(sum, +)
BINARY(difference, -)
BINARY(product, *)
BINARY(quotient, /)

// scalar expressions of every form, in the variable X
template <class X> struct Leaves {
    static auto x0()
    {
        if constexpr (std::is_same_v<X, double>) return one(mf::pow<1>, [](const In & x) { return x[0]; }, "t");
        else return one(mf::component<X, 0>, [](const In & x) { return x[0]; }, "x");
    }
    static auto last()
    {
        if constexpr (std::is_same_v<X, double>) return one(mf::sin, [](const In & x) { return j_sin(x[0]); }, "sin");
        else if constexpr (Dim<X>::d == 1) return one(mf::sin(mf::component<X, 0>), [](const In & x) { return j_sin(x[0]); }, "sin(x)");
        else return one(mf::component<X, Dim<X>::d - 1>, [](const In & x) { return x[Dim<X>::d - 1]; }, Dim<X>::d == 2 ? "y" : "z");
    }
    static auto constant() { return one(mf::constant<X>(1.25), [](const In &) { return C(1.25); }, "1.25"); }
    static auto forms()
    {
        auto x = x0(), y = last();
        auto lc = mf::linear_combination(std::array<double, 2> { 2., -0.75 }, x.f, y.f);
        return std::make_tuple(
            x, y, constant(), sum(x, y), un(PlusC {}, y), un(TimesC {}, y), un(CTimes {}, x), product(x, y), un(Sin {}, y), quotient(constant(), un(PlusC {}, un(Pow2 {}, x))),
            one(lc, [x, y](const In & p) { return C(2) * x.r(p)[0] + C(-0.75) * y.r(p)[0]; }, "(2 x - 0.75 y)"));
    }
};
template <class T, class Body> static void for_tuple(const T & t, Body && body)
{
    std::apply([&](const auto &... e) { (body(e), ...); }, t);
}
using V1 = double;
using V2 = mt::vector_t<2>;
using V3 = mt::vector_t<3>;
using M22 = mt::matrix_t<2, 2>;
using M23 = mt::matrix_t<2, 3>;

// the tuple, or its first {n} entries
template <int n, class T> static auto some(const T & t)
{
    if constexpr (deep || n >= std::tuple_size_v<T>) return t;
    else return [&]<size_t... I>(std::index_sequence<I...>) { return std::make_tuple(std::get<I>(t)...); }(std::make_index_sequence<n> {});
}
// functions with values in vectors and matrices
template <int N, class X, class T> static auto vec(const T & e)
{
    // the sum of the components times the unit vectors, the constants on either side
    return [&]<size_t... I>(std::index_sequence<I...>) {
        auto f = (([&] {
            if constexpr (I % 2) return mt::e<I, N> * std::get<I>(e).f;
            else return std::get<I>(e).f * mt::e<I, N>;
        }()) + ...);
        std::string n = "[";
        ((n += (I ? ", " : "") + std::get<I>(e).n), ...);
        return ex(f, [e](const In & p) { return std::vector<J> { std::get<I>(e).r(p)[0]... }; }, n + "]");
    }(std::make_index_sequence<N> {});
}
template <class F> static auto at(const Ex<F> & a, int i) { return one(a.f[i], [r = a.r, i](const In & p) { return r(p)[i]; }, a.n + mc::fmt("[%d]", i)); }
static std::vector<J> zip(const std::vector<J> & a, const std::vector<J> & b, auto op)
{
    std::vector<J> r;
    for (size_t i = 0; i < a.size(); ++i) r.push_back(op(a[i], b[i]));
    return r;
}
static std::vector<J> scale(const J & s, const std::vector<J> & a)
{
    std::vector<J> r;
    for (auto & x : a) r.push_back(s * x);
    return r;
}
static std::vector<J> constants(std::vector<double> v)
{
    std::vector<J> r;
    for (double x : v) r.push_back(C(x));
    return r;
}
static J dotj(const std::vector<J> & a, const std::vector<J> & b)
{
    J r;
    for (size_t i = 0; i < a.size(); ++i) r = r + a[i] * b[i];
    return r;
}
template <int N> static mt::vector_t<N> vc(int k = 0)
{
    mt::vector_t<N> v;
    for (int i = 0; i < N; ++i) v[i] = 0.5 + i - 1.5 * k * (i % 2);
    return v;
}
template <class X, int N> static auto vectors()
{
    auto x = Leaves<X>::x0();
    auto y = Leaves<X>::last();
    auto a = vec<N, X>(std::make_tuple(product(x, y), un(Sin {}, x), un(PlusC {}, y)));
    auto b = vec<N, X>(std::make_tuple(un(Exp {}, x), product(y, y), un(CTimes {}, x)));
    auto c = ex(mf::constant<X>(vc<N>()), [](const In &) { return constants(flat(vc<N>())); }, "constant vector");
    auto d = ex(a.f + vc<N>(1), [r = a.r](const In & p) { return zip(r(p), constants(flat(vc<N>(1))), [](auto x, auto y) { return x + y; }); }, a.n + " + v");
    auto e = ex(y.f * b.f, [r = y.r, s = b.r](const In & p) { return scale(r(p)[0], s(p)); }, y.n + " * " + b.n);
    auto f = ex(mf::linear_combination(std::array<double, 2> { 2., -1.5 }, a.f, b.f), [r = a.r, s = b.r](const In & p) { return zip(scale(C(2), r(p)), scale(C(-1.5), s(p)), [](auto x, auto y) { return x + y; }); }, "2 " + a.n + " - 1.5 " + b.n);
    return std::make_tuple(a, b, c, d, e, f);
}
// matrices
template <int R, int K, class X, class T> static auto mat(const T & e)
{
    return [&]<size_t... I>(std::index_sequence<I...>) {
        auto f = (([&] {
            constexpr auto u = mt::unit<mt::matrix_t<R, K>, I / K, I % K>;
            if constexpr (I % 2) return std::get<I>(e).f * u;
            else return u * std::get<I>(e).f;
        }()) + ...);
        std::string n = "{";
        ((n += (I ? ", " : "") + std::get<I>(e).n), ...);
        return ex(f, [e](const In & p) { return std::vector<J> { std::get<I>(e).r(p)[0]... }; }, n + "}");
    }(std::make_index_sequence<R * K> {});
}
static std::vector<J> mul(const std::vector<J> & a, const std::vector<J> & b, int n, int m, int l)
{
    std::vector<J> r(n * l);
    for (int i = 0; i < n; ++i)
        for (int k = 0; k < l; ++k)
            for (int j = 0; j < m; ++j) r[i * l + k] = r[i * l + k] + a[i * m + j] * b[j * l + k];
    return r;
}
static std::vector<J> tr(const std::vector<J> & a, int n, int m)
{
    std::vector<J> r(n * m);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < m; ++j) r[j * n + i] = a[i * m + j];
    return r;
}
static J det(const std::vector<J> & a)
{
    if (a.size() == 1) return a[0];
    if (a.size() == 4) return a[0] * a[3] - a[1] * a[2];
    return a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6]);
}
template <class F> static auto entry(const Ex<F> & a, int i, int j, int cols)
{
    typename F::output_type::index_t idx { i, j };
    return one(a.f[idx], [r = a.r, i, j, cols](const In & p) { return r(p)[i * cols + j]; }, a.n + mc::fmt("[%d, %d]", i, j));
}
