// C12 (FOCUS 1: linear elasticity), C13 (FOCUS 2: the Gent material, and the consistency test).
// Every deformation gradient on a lattice around the identity and every parameter set, against the
// constitutive relations written out in long double, and against each other.
#include "mc.h"
#include <mito/materials.h>
#ifndef FOCUS
#define FOCUS 1
#endif
using ld = long double;
using mito::tensor::matrix_t;
using F_t = matrix_t<3>;
using A3 = std::array<std::array<ld, 3>, 3>;

static A3 arr(const F_t & F)
{
    A3 r;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) r[i][j] = F[{ i, j }];
    return r;
}
static F_t mat(const A3 & a)
{
    F_t F;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) F[{ i, j }] = (double) a[i][j];
    return F;
}
static ld det(const A3 & a)
{
    return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
         + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
}
static A3 inv(const A3 & a)
{
    A3 r;
    ld d = det(a);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            int p = (j + 1) % 3, q = (j + 2) % 3, s = (i + 1) % 3, t = (i + 2) % 3;
            r[i][j] = (a[p][s] * a[q][t] - a[p][t] * a[q][s]) / d;
        }
    return r;
}
static A3 mul(const A3 & a, const A3 & b)
{
    A3 r {};
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            for (int k = 0; k < 3; ++k) r[i][j] += a[i][k] * b[k][j];
    return r;
}
static ld kd(int i, int j) { return i == j; }
static std::string str(const A3 & a)
{
    std::string r = "[";
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) r += mc::fmt("%s%Lg", i + j ? " " : "", a[i][j]);
    return r + "]";
}
static void close(ld got, ld want, ld scale, const char * key, const char * what, const std::string & ctx)
{
    mc::require(std::fabs(got - want) <= 1e-10L * (scale + std::fabs(want)), key, "%s is %.12Lg, should be %.12Lg at %s",
                what, got, want, ctx.c_str());
}

// what every hyperelastic material has to satisfy: the stress is the derivative of the energy, the
// tangents are the derivative of the stress (by differences of fourth order of the real code)
template <class M>
static void consistency(const M & m, const A3 & F, ld scale, const std::string & ctx)
{
    const ld h = 1e-3L;
    auto P = m.stress(mat(F));
    auto C = m.tangents(mat(F));
    for (int k = 0; k < 3; ++k)
        for (int l = 0; l < 3; ++l) {
            auto at = [&](int n) {
                A3 G = F;
                G[k][l] += n * h;
                return mat(G);
            };
            ld d = (8 * ((ld) m.energy(at(1)) - (ld) m.energy(at(-1))) - ((ld) m.energy(at(2)) - (ld) m.energy(at(-2)))) / (12 * h);
            ld p = P[{ k, l }];
            mc::require(std::fabs(d - p) <= 2e-7L * (scale + std::fabs(p)), "energy-stress",
                        "the stress component %d%d is %.10Lg, the energy changes by %.10Lg at %s", k, l, p, d, ctx.c_str());
            auto p1 = m.stress(at(1)), p_1 = m.stress(at(-1)), p2 = m.stress(at(2)), p_2 = m.stress(at(-2));
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j) {
                    ld d = (8 * ((ld) p1[{ i, j }] - (ld) p_1[{ i, j }]) - ((ld) p2[{ i, j }] - (ld) p_2[{ i, j }])) / (12 * h);
                    ld c = C[{ i, j, k, l }];
                    mc::require(std::fabs(d - c) <= 2e-6L * (scale + std::fabs(c)), "stress-tangents",
                                "the tangent component %d%d%d%d is %.10Lg, the stress changes by %.10Lg at %s", i, j, k, l, c, d,
                                ctx.c_str());
                    close(c, C[{ k, l, i, j }], scale, "major-symmetry", "a tangent component", ctx);
                }
        }
}

// the lattice of deformation gradients
template <class Fn>
static void lattice(const std::vector<ld> & steps, Fn && fn)
{
    int w = steps.size();
    long n = 1;
    for (int i = 0; i < 9; ++i) n *= w;
    for (long code = 0; code < n; ++code) {
        A3 F;
        long x = code;
        for (int i = 0; i < 9; ++i, x /= w) F[i / 3][i % 3] = kd(i / 3, i % 3) + steps[x % w];
        fn(F, code);
    }
}
// the 24 rotations that map the axes to themselves, and a few others
static std::vector<A3> rotations()
{
    std::vector<A3> r;
    int p[3] = { 0, 1, 2 };
    do
        for (int s = 0; s < 8; ++s) {
            A3 Q {};
            for (int i = 0; i < 3; ++i) Q[i][p[i]] = s >> i & 1 ? -1 : 1;
            if (det(Q) > 0) r.push_back(Q);
        }
    while (std::next_permutation(p, p + 3));
    A3 a { { { 0.6L, -0.8L, 0 }, { 0.8L, 0.6L, 0 }, { 0, 0, 1 } } };
    A3 b { { { 1, 0, 0 }, { 0, 5 / 13.0L, -12 / 13.0L }, { 0, 12 / 13.0L, 5 / 13.0L } } };
    A3 c = mul(a, b);
    r.push_back(a), r.push_back(b), r.push_back(c), r.push_back(mul(c, a));
    return r;
}

// ---------------------------------------------------------------- linear elasticity
static void linear_elastic()
{
    for (ld E : { 1.0L, 250.0L, 2.0e11L, 1e-9L })
        for (ld nu : { -0.5L, 0.0L, 0.25L, 0.3L, 0.45L, -0.9L, 0.49L })
            for (ld rho : { 1.0L, 7.5L }) {
                if (rho != 1 && (E > 1000 || E < 1)) continue;
                auto m = mito::materials::linear_elastic((double) rho, (double) E, (double) nu);
                ld la = E * nu / ((1 + nu) * (1 - 2 * nu)), mu = E / (2 * (1 + nu));
                auto par = mc::fmt("E=%Lg nu=%Lg rho=%Lg", E, nu, rho);
                // ({unit}: by how much the entries of {F} differ from the identity's)
                auto at = [&](const A3 & F, long code, ld unit) {
                    mc::for_case(mc::fmt("%s unit=%Lg F=%ld", par.c_str(), unit, code), [&] {
                        ld sc = E * (unit + 1e-4L), one = std::max(unit, 1e-4L);
                        auto ctx = par + " F=" + str(F);
                        mc::evaluation(code != 0, mc::hash_str(ctx));
                        A3 e;
                        ld tr = 0;
                        for (int i = 0; i < 3; ++i)
                            for (int j = 0; j < 3; ++j) e[i][j] = (F[i][j] + F[j][i]) / 2 - kd(i, j);
                        for (int i = 0; i < 3; ++i) tr += e[i][i];
                        auto f = mat(F);
                        auto s = m.stress(f);
                        ld W = 0;
                        for (int i = 0; i < 3; ++i)
                            for (int j = 0; j < 3; ++j) {
                                ld w = la * tr * kd(i, j) + 2 * mu * e[i][j];
                                close(s[{ i, j }], w, sc, "stress", "the stress", ctx);
                                close(s[{ i, j }], s[{ j, i }], sc, "stress-symmetry", "the stress", ctx);
                                W += w * e[i][j] / 2;
                            }
                        ld w = m.energy(f);
                        close(w, W, sc * one, "energy", "the energy", ctx);
                        mc::require(w >= -1e-12L * sc * unit, "positive", "the energy is negative (%Lg) at %s", w, ctx.c_str());
                        auto C = m.tangents(f);
                        for (int i = 0; i < 3; ++i)
                            for (int j = 0; j < 3; ++j) {
                                ld t = 0;
                                for (int k = 0; k < 3; ++k)
                                    for (int l = 0; l < 3; ++l) {
                                        ld c = C[{ i, j, k, l }];
                                        if (code % 7 == 0) {
                                            close(c, la * kd(i, j) * kd(k, l) + mu * (kd(i, k) * kd(j, l) + kd(i, l) * kd(j, k)), E,
                                                  "tangents", "a tangent component", ctx);
                                            close(c, C[{ k, l, i, j }], E, "major-symmetry", "a tangent component", ctx);
                                            close(c, C[{ j, i, k, l }], E, "minor-symmetry", "a tangent component", ctx);
                                        }
                                        t += c * e[k][l];
                                    }
                                close(s[{ i, j }], t, sc, "stress-tangents", "tangents applied to the strain", ctx);
                            }
                        if (unit == 0.125L && code % 81 == 5) consistency(m, F, E, ctx);
                    });
                };
                lattice({ 0, 0.125L, mc::thorough() ? -0.5L : -0.25L }, [&](const A3 & F, long code) {
                    if (mc::thorough() || rho == 1 || code % 27 == 0) at(F, code, 0.125L);
                });
                // strains of every size, and deformations that leave nothing of some direction
                for (ld t : { 1e-9L, 1e-6L, 1e-3L, 0.03L, 1.0L, 40.0L, 1e6L })
                    lattice({ 0, t, -t }, [&](const A3 & F, long code) {
                        if (rho == 1 && (code % (mc::thorough() ? 1 : 7) == 0 || (t == 1 && det(F) == 0 && code % 3 == 0))) at(F, code, t);
                    });
                // a bar under tension: only the axial stress, of size E
                for (int a = 0; a < 3; ++a)
                    mc::for_case(mc::fmt("bar %s axis %d", par.c_str(), a), [&] {
                        mc::evaluation(true, mc::hash_str(mc::current));
                        A3 F {};
                        for (int i = 0; i < 3; ++i) F[i][i] = 1 + (i == a ? 0.125L : -0.125L * nu);
                        auto s = m.stress(mat(F));
                        for (int i = 0; i < 3; ++i)
                            for (int j = 0; j < 3; ++j)
                                close(s[{ i, j }], i == a && j == a ? E * 0.125L : 0, E, "bar", "the stress in a bar", par);
                    });
            }
}

// ---------------------------------------------------------------- Gent
static void gent()
{
    auto Q = rotations();
    int np = 0;
    std::vector<std::array<ld, 4>> parameters;
    for (ld kappa : { 1.5L, 0.0L, 40.0L })
        for (ld mu : { 5.0L, 0.5L })
            for (ld Jm : { 2.0L, 30.0L, 1000.0L })
                for (ld rho : { 1.0L, 3.0L }) parameters.push_back({ kappa, mu, Jm, rho });
    // of every size
    for (auto & e : std::vector<std::array<ld, 4>> { { 1e-9L, 2e-9L, 30, 1 }, { 4e9L, 3e8L, 50, 1 }, { 0.5L, 1, 0.01L, 1 }, { 1e6L, 1, 100, 1 }, { 1, 1, 1e8L, 1 }, { 0, 1e-6L, 1e5L, 1 } }) parameters.push_back(e);
    for (auto [kappa, mu, Jm, rho] : parameters) {
        ++np;
        auto m = mito::materials::gent((double) rho, (double) kappa, (double) mu, (double) Jm);
        auto par = mc::fmt("kappa=%Lg mu=%Lg Jm=%Lg rho=%Lg", kappa, mu, Jm, rho);
        ld sc = mu + kappa;
        auto at = [&](const A3 & F, long code, ld unit) {
            ld J = det(F), I1 = 0;
            for (auto & r : F)
                for (ld x : r) I1 += x * x;
            if (J < 0.1L || I1 - 3 > 0.9L * Jm) return;    // outside the range of the model
            mc::for_case(mc::fmt("%s unit=%Lg F=%ld", par.c_str(), unit, code), [&] {
                auto ctx = par + " F=" + str(F);
                mc::evaluation(code != 0, mc::hash_str(ctx));
                auto f = mat(F);
                ld A = (J * J - 1) / 2 - std::log(J), c = Jm - I1 + 3;
                ld w = -mu / 2 * (Jm * std::log(1 - (I1 - 3) / Jm) + 2 * std::log(J)) + kappa / 2 * A * A * A * A;
                // the magnitudes of the terms, of which the results are sums
                auto Fi = inv(F);
                ld Fm = 0, Fim = 0, Am = (J * J + 1) / 2 + std::fabs(std::log(J)), Jt = J * J + 1;
                for (int i = 0; i < 9; ++i) Fm = std::max(Fm, std::fabs(F[i / 3][i % 3])), Fim = std::max(Fim, std::fabs(Fi[i / 3][i % 3]));
                if (Fm * Fm * Fm > 1e4L * J) return;
                ld eM = mu * (1 + Jm / 1e5L + Jm * std::fabs(std::log(1 - (I1 - 3) / Jm)) + 2 * std::fabs(std::log(J))) + kappa * Am * Am * Am * Am;
                ld pM = mu * Jm / c * Fm + (2 * kappa * Am * Am * Am * Jt + mu) * Fim;
                ld tM = mu * Jm / c * (1 + 2 * Fm * Fm / c) + (2 * kappa * Am * Am * Jt * (Am + 3 * Jt + 2 * Am) + mu) * Fim * Fim;
                ld s1 = sc * 10 / J;
                close(m.energy(f), w, eM, "energy", "the energy", ctx);
                mc::require(m.energy(f) >= -1e-12 * (double) eM - 1e-15 * (double) (mu * Jm), "positive", "the energy is negative at %s", ctx.c_str());
                auto P = m.stress(f);
                for (int i = 0; i < 3; ++i)
                    for (int j = 0; j < 3; ++j)
                        close(P[{ i, j }], mu * Jm / c * F[i][j] + (2 * kappa * A * A * A * (J * J - 1) - mu) * Fi[j][i], pM,
                              "stress", "the stress", ctx);
                // no torque: P F^T is symmetric
                for (int i = 0; i < 3; ++i)
                    for (int j = 0; j < i; ++j) {
                        ld t = 0;
                        for (int k = 0; k < 3; ++k) t += P[{ i, k }] * F[j][k] - P[{ j, k }] * F[i][k];
                        close(t, 0, pM * Fm, "moment-balance", "the skew part of the Kirchhoff stress", ctx);
                    }
                if (unit != 0.125L || code % 27 == 1 || code == 0 || mc::thorough()) {
                    auto C = m.tangents(f);
                    ld c0 = mu * Jm / c, c1 = 2 * mu * Jm / (c * c), c2 = mu - 2 * kappa * A * A * A * (J * J - 1);
                    ld c3 = 2 * kappa * (3 * A * A * (J * J - 1) * (J * J - 1) + 2 * J * J * A * A * A);
                    for (int i = 0; i < 3; ++i)
                        for (int j = 0; j < 3; ++j)
                            for (int k = 0; k < 3; ++k)
                                for (int l = 0; l < 3; ++l)
                                    close(C[{ i, j, k, l }],
                                          c0 * kd(i, k) * kd(j, l) + c1 * F[i][j] * F[k][l] + c2 * Fi[j][k] * Fi[l][i]
                                              + c3 * Fi[j][i] * Fi[l][k],
                                          tM, "tangents", "a tangent component", ctx);
                }
                if (unit < 0.2L && code % 243 == 7 && Jm >= 1 && Jm < 1e4L && J > 0.3L && I1 - 3 < 0.6L * Jm) consistency(m, F, s1 * 10, ctx);
                // frame indifference and isotropy
                if (code % 81 == 13 || code == 0)
                    for (size_t q = 0; q < Q.size(); ++q) {
                        mc::require(std::fabs(m.energy(mat(mul(Q[q], F))) - m.energy(f)) <= 1e-9 * (double) eM, "objectivity",
                                    "rotation %zu of the deformed body changes the energy at %s", q, ctx.c_str());
                        mc::require(std::fabs(m.energy(mat(mul(F, Q[q]))) - m.energy(f)) <= 1e-9 * (double) eM, "isotropy",
                                    "rotation %zu of the undeformed body changes the energy at %s", q, ctx.c_str());
                        auto R = m.stress(mat(mul(Q[q], F)));
                        for (int i = 0; i < 3; ++i)
                            for (int j = 0; j < 3; ++j) {
                                ld t = 0;
                                for (int k = 0; k < 3; ++k) t += Q[q][i][k] * P[{ k, j }];
                                close(R[{ i, j }], t, pM * 10, "objectivity", "the stress of the rotated body", ctx);
                            }
                    }
            });
        };
        lattice({ 0, 0.125L, -0.25L }, [&](const A3 & F, long code) {
            if (mc::thorough() || (rho == 1 && kappa != 40 && Jm != 1000) || (code + np) % 9 == 0) at(F, code, 0.125L);
        });
        // deformations of every size that the model admits
        for (ld t : { 1e-6L, 1e-3L, 0.03L, 0.5L, 1.0L, 3.0L, 8.0L })
            lattice({ 0, t, -t }, [&](const A3 & F, long code) {
                if (rho == 1 && (code + np) % (mc::thorough() ? 3 : 37) == 0) at(F, code, t);
            });
        mc::for_case("reference configuration " + par, [&] {
            mc::evaluation(true, mc::hash_str(mc::current));
            F_t I = mito::tensor::identity<3>;
            close(m.energy(I), 0, sc, "reference", "the energy of the reference configuration", par);
            auto P = m.stress(I);
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j) close(P[{ i, j }], 0, sc, "reference", "the stress in the reference configuration", par);
        });
    }
}

// a material with a mistake in one component, that the consistency test has to tell from a sound one
template <class M>
struct Faulty {
    using deformation_gradient_type = F_t;
    using stress_type = matrix_t<3>;
    using tangents_type = typename M::tangents_type;
    M m;
    int where;    // -1: none; 0..8 a stress component; 9..89: a tangent component
    double by;
    auto energy(const F_t & F) const { return m.energy(F); }
    auto stress(const F_t & F) const
    {
        auto p = m.stress(F);
        stress_type P;
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j) P[{ i, j }] = p[{ i, j }];
        if (where >= 0 && where < 9) P[{ where / 3, where % 3 }] += by;
        return P;
    }
    auto tangents(const F_t & F) const
    {
        auto C = m.tangents(F);
        if (where >= 9) {
            int w = where - 9;
            C[{ w / 27, w / 9 % 3, w / 3 % 3, w % 3 }] += by;
        }
        return C;
    }
};
template <class M>
static void consistency_test(const char * name, const M & m)
{
    double eps = 1e-5, tol = 1e-7;
    for (long code : { 0, 1, 9, 100, 4000, 9841, 12345, 19682 }) {
        A3 F;
        long x = code;
        for (int i = 0; i < 9; ++i, x /= 3) F[i / 3][i % 3] = kd(i / 3, i % 3) + (ld[]) { 0, 0.0625L, -0.125L }[x % 3];
        auto f = mat(F);
        for (int w = -1; w < 90; ++w)
            for (double by : { 0.5, -0.5 })
                mc::for_case(mc::fmt("consistency test %s F=%ld fault %d by %g", name, code, w, by), [&] {
                    mc::evaluation(true, mc::hash_str(mc::current));
                    Faulty<M> bad { m, w, by };
                    auto t = mito::materials::consistency_test(bad, eps, tol);
                    bool s = t.test_stress(f), c = t.test_tangents(f);
                    mc::require(s == !(w >= 0 && w < 9), "consistency-test", "the stress test says %d for a fault in component %d", s, w);
                    mc::require(c == !(w >= 9), "consistency-test", "the tangents test says %d for a fault in component %d", c, w);
                    // it is made with the values its arguments have then
                    auto made = [&] {
                        auto e = std::make_unique<double>(eps), l = std::make_unique<double>(tol);
                        auto b = std::make_unique<Faulty<M>>(bad);
                        auto kept = mito::materials::consistency_test(*b, *e, *l);
                        *e = 0.25;
                        *l = w < 0 ? 0 : 1e300;
                        b->where = w < 0 ? 0 : -1;
                        mc::require(kept.test_stress(f) == s && kept.test_tangents(f) == c, "consistency-test", "the answer depends on what becomes of the arguments");
                    };
                    made();
                    // asking again gives the same answer
                    mc::require(t.test_stress(f) == s && t.test_tangents(f) == c, "consistency-test", "the answer changes");
                });
    }
}

int main(int argc, char ** argv)
{
    mc::init(argc, argv, FOCUS == 1 ? "C12" : "C13");
    if (FOCUS == 1) {
        linear_elastic();
        consistency_test("linear elastic", mito::materials::linear_elastic(1.0, 10.0, 0.3));
    } else {
        gent();
        consistency_test("gent", mito::materials::gent(1.0, 1.5, 5.0, 2.0));
    }
    return mc::finish();
}
