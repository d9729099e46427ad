// C27: linear systems and solvers by PETSc. Every history of operations on small systems; boundary value problems on every
// set of cells of small grids.
#include "grids.h"
#include <mito/matrix_solvers.h>
#include <mito/solvers.h>
#ifndef FOCUS
#define FOCUS 1
#endif
namespace petsc = mito::matrix_solvers::petsc;
static bool near(double a, double b, double scale) { return std::abs(a - b) <= 1e-9 * scale; }
static const char * DIRECT = "-ksp_type preonly -pc_type lu";
static const char * OPTIONS[] = { DIRECT, "-pc_type lu -ksp_type preonly", "-ksp_type  preonly -pc_type lu ", "-ksp_rtol 1e-14 -ksp_atol 1e-50 -ksp_type gmres -pc_type jacobi" };
// the options of earlier systems slow down those that follow: forget them
static int unique_label = 0;
static int fresh_label()
{
    if (unique_label >= 100) PetscOptionsClear(nullptr), unique_label = 0;
    return unique_label++;
}
// one system of two or three equations
struct Histories {
    int n;
    std::string label;
    std::unique_ptr<petsc::linear_system_t> ls;
    std::unique_ptr<petsc::ksp_t> ksp;
    Matrix A;
    std::vector<double> b, x;
    char mode = 0;    // whether entries are being added or inserted, which cannot be mixed
    char rhs_mode = 0;
    int step = 0;
    bool alive = true;
    double unit = 1, load = 1;    // of the entries of the matrix, and of the right-hand side
    Histories(int n, int options, double unit = 1, double load = 1, char begin = 0) : n(n), label("h" + std::to_string(fresh_label())), A(n, std::vector<double>(n, 0)), b(n, 0), x(n, 0), unit(unit), load(load)
    {
        ls = std::make_unique<petsc::linear_system_t>(label);
        ls->create(n);
        ksp = std::make_unique<petsc::ksp_t>(*ls);
        ksp->create();
        ksp->set_options(OPTIONS[options]);
        // well-conditioned whatever is added
        mode = begin == 'a' ? 'a' : 'i';
        for (int i = 0; i < n; ++i)
            if (mode == 'a') ls->add_matrix_value(i, i, (A[i][i] = 50 + i) * unit);
            else ls->insert_matrix_value(i, i, (A[i][i] = 50 + i) * unit);
        // with something to solve for
        rhs_mode = begin;
        for (int i = 0; begin && i < n; ++i)
            if (begin == 'a') ls->add_rhs_value(i, (b[i] = 10 - i) * load);
            else ls->insert_rhs_value(i, (b[i] = 10 - i) * load);
    }
    Histories(Histories && o) = default;
    ~Histories()
    {
        if (alive && ksp) ksp->destroy();
    }
    struct Op { char k; int i, j; };
    std::vector<Op> menu()
    {
        std::vector<Op> m;
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) {
                if (n > 2 && (i * n + j) % 2) continue;
                if (mode != 'i') m.push_back({ 'a', i, j });
                if (mode != 'a') m.push_back({ 'i', i, j });
                if (mode != 'a' && i < j) m.push_back({ 'z', i, j });
            }
        for (int i = 0; i < n; ++i) {
            if (rhs_mode != 'i') m.push_back({ 'A', i, 0 });
            if (rhs_mode != 'a') m.push_back({ 'I', i, 0 });
            if (rhs_mode != 'a' && i == 0) m.push_back({ 'Z', i, 0 });
        }
        if (mode) m.push_back({ 'x', 0, 0 });
        m.push_back({ 's', 0, 0 });
        return m;
    }
    int enabled() { return (int) menu().size(); }
    std::string name(int c)
    {
        auto o = menu()[c];
        if (o.k == 'a' || o.k == 'i') return mc::fmt("%s entry (%d, %d)", o.k == 'a' ? "add to" : "insert", o.i, o.j);
        if (o.k == 'z') return mc::fmt("insert zero at entry (%d, %d)", o.i, o.j);
        if (o.k == 'Z') return mc::fmt("insert zero at entry %d of the right-hand side", o.i);
        if (o.k == 'A' || o.k == 'I') return mc::fmt("%s entry %d of the right-hand side", o.k == 'A' ? "add to" : "insert", o.i);
        return o.k == 'x' ? "assemble" : "solve";
    }
    void apply(int c)
    {
        auto o = menu()[c];
        double v = ++step * 1.5;
        switch (o.k) {
        case 'a': ls->add_matrix_value(o.i, o.j, v * unit), A[o.i][o.j] += v, mode = 'a'; break;
        case 'i': ls->insert_matrix_value(o.i, o.j, (o.i == o.j ? 40 + v : -v) * unit), A[o.i][o.j] = o.i == o.j ? 40 + v : -v, mode = 'i'; break;
        case 'z': ls->insert_matrix_value(o.i, o.j, 0), A[o.i][o.j] = 0, mode = 'i'; break;
        case 'Z': ls->insert_rhs_value(o.i, 0), b[o.i] = 0, rhs_mode = 'i'; break;
        case 'A': ls->add_rhs_value(o.i, v * load), b[o.i] += v, rhs_mode = 'a'; break;
        case 'I': ls->insert_rhs_value(o.i, -v * load), b[o.i] = -v, rhs_mode = 'i'; break;
        case 'x': ls->assemble(), mode = 0; break;
        case 's':
            ksp->solve();
            mode = 0;
            mc::require(::solve(A, b, x), "oracle", "singular");
            break;
        }
    }
    void check()
    {
        mc::require(ls->n_equations() == n && ls->label() == label, "size", "%d equations, called '%s'", ls->n_equations(), ls->label().c_str());
        // the solution is that of the last time it was solved
        std::vector<double> u(n, 77);
        ls->get_solution(u);
        for (int i = 0; i < n; ++i) mc::require(near(u[i], x[i] * (load / unit), load / unit), "solution", "entry %d of the solution is %.15g instead of %.15g", i, u[i], x[i] * (load / unit));
    }
    void finish()
    {
        ksp->destroy();
        alive = false;
    }
    uint64_t hash()
    {
        uint64_t h = n;
        for (auto & r : A)
            for (double v : r) h = mc::mix(h, std::lround(2 * v));
        for (double v : b) h = mc::mix(h, std::lround(2 * v));
        for (double v : x) h = mc::mix(h, std::lround(1e6 * v));
        return mc::mix(h, mode * 256 + rhs_mode);
    }
};
// two systems at a time, each with its own options: one is solved, the other never iterates
static void isolation()
{
    const char * idle = "-ksp_type richardson -ksp_max_it 0 -pc_type none";
    std::vector<int> order { 0, 1, 2, 3 };    // set options of the first, of the second, solve the first, the second
    do {
        auto at = [&](int k) { return std::find(order.begin(), order.end(), k) - order.begin(); };
        if (at(0) > at(2) || at(1) > at(3)) continue;
        for (int labels = 0; labels < 7; ++labels)
            for (int swap = 0; swap < 4; ++swap) {
                // which one solves, and whether its options say all that those of the other do
                const bool few = swap > 1;
                mc::for_case(mc::fmt("two systems, order %d%d%d%d, labels %d, %s, %s options", order[0], order[1], order[2], order[3], labels, swap % 2 ? "second solves" : "first solves", few ? "few" : "all"), [&] {
                    std::string u = std::to_string(fresh_label());
                    std::string l[2] = { "p" + u, "q" + u };
                    if (labels == 1) l[1] = l[0] + "_";         // one the prefix of the other
                    if (labels == 2) l[1] = l[0] + "_ksp";
                    if (labels == 3) l[0] = "m" + l[1];
                    if (labels == 4) l[0] = "with_underscores_" + u;
                    if (labels > 4) {    // long ones that differ late
                        std::string base = labels == 5 ? "the_linear_system_" : "a_label_as_long_as_labels_get_" + std::string(60, 'x');
                        l[0] = base + u + "a", l[1] = base + u + "b";
                    }
                    petsc::linear_system_t a(l[0]), b(l[1]);
                    petsc::linear_system_t * ls[2] = { &a, &b };
                    a.create(2), b.create(2);
                    petsc::ksp_t ka(a), kb(b);
                    petsc::ksp_t * ksp[2] = { &ka, &kb };
                    ka.create(), kb.create();
                    for (auto s : ls) {
                        s->insert_matrix_value(0, 0, 4), s->insert_matrix_value(1, 1, 2), s->insert_matrix_value(0, 1, 1);
                        s->insert_rhs_value(0, 9), s->insert_rhs_value(1, 2);
                    }
                    for (int o : order) {
                        int k = o % 2;
                        if (o < 2) ksp[k]->set_options(k == swap % 2 ? few ? "-ksp_rtol 1e-13" : DIRECT : idle);
                        else ksp[k]->solve();
                    }
                    for (int k = 0; k < 2; ++k) {
                        std::vector<double> u(2);
                        ls[k]->get_solution(u);
                        double want[2] = { k == swap % 2 ? 2.0 : 0, k == swap % 2 ? 1.0 : 0 };
                        for (int i = 0; i < 2; ++i) mc::require(near(u[i], want[i], 1), "options", "entry %d of solution %d is %.15g instead of %.15g", i, k, u[i], want[i]);
                    }
                    ka.destroy(), kb.destroy();
                    mc::evaluation(true, mc::hash_str(mc::current));
                });
            }
    } while (std::next_permutation(order.begin(), order.end()));
}
// every order of a set of options, in one or two calls, however spaced, with values of either sign: a number of steps of
// Richardson's iteration, which are those of the scale and number given last
static void grammar()
{
    static const char * scales[] = { "0.25", "-0.25", "-.125", "-2.5e-1" };
    static const char * gaps[] = { " ", "  ", "   " };
    std::vector<std::string> items { "-ksp_type richardson", "-pc_type none", "-ksp_norm_type none", "-ksp_richardson_scale ", "-ksp_max_it " };
    std::vector<int> order { 0, 1, 2, 3, 4 };
    int perm = 0;
    do {
        ++perm;
        for (int s = 0; s < 4; ++s)
            for (int split = 0; split < 6; ++split)
                for (int gap = 0; gap < 3; ++gap) {
                    if (mc::pick(1, 0) && (perm + s + split + gap) % 2) continue;
                    const int steps = 1 + (perm + s) % 3, again = (perm + split + gap) % 3;    // whether the scale, or the number of steps, is overridden
                    mc::for_case(mc::fmt("options %d%d%d%d%d, scale %s, %d steps, split at %d, gap %d, override %d", order[0], order[1], order[2], order[3], order[4], scales[s], steps, split, gap, again), [&] {
                        petsc::linear_system_t ls("g" + std::to_string(fresh_label()));
                        ls.create(2);
                        const double A[2][2] = { { 4, 1 }, { 0, 2 } }, b[2] = { 9, 2 };
                        for (int i = 0; i < 2; ++i) {
                            for (int j = 0; j < 2; ++j) ls.insert_matrix_value(i, j, A[i][j]);
                            ls.insert_rhs_value(i, b[i]);
                        }
                        petsc::ksp_t ksp(ls);
                        ksp.create();
                        std::string text[2];
                        for (int i = 0; i < 5; ++i) {
                            std::string item = items[order[i]];
                            if (order[i] == 3) item += scales[s];
                            if (order[i] == 4) item += std::to_string(steps);
                            // the gap within an option is that between options
                            if (auto at = item.find(' '); gap && at != std::string::npos) item.replace(at, 1, gaps[gap]);
                            auto & t = text[i >= split];
                            if (!t.empty() || gap == 2) t += gaps[gap];
                            t += item;
                        }
                        if (gap == 1) text[1] += " ";
                        double scale = std::atof(scales[s]);
                        int n = steps;
                        if (split > 0) ksp.set_options(text[0]);
                        if (split < 5) ksp.set_options(text[1]);
                        if (again == 1) ksp.set_options("-ksp_richardson_scale 0.5"), scale = 0.5;
                        if (again == 2) ksp.set_options("-ksp_max_it 4"), n = 4;
                        ksp.solve();
                        double x[2] = { 0, 0 };
                        for (int k = 0; k < n; ++k) {
                            double r[2] = { b[0] - A[0][0] * x[0] - A[0][1] * x[1], b[1] - A[1][0] * x[0] - A[1][1] * x[1] };
                            for (int i = 0; i < 2; ++i) x[i] += scale * r[i];
                        }
                        std::vector<double> u(2);
                        ls.get_solution(u);
                        for (int i = 0; i < 2; ++i) mc::require(near(u[i], x[i], 1 + std::abs(x[i])), "options", "entry %d is %.15g instead of %.15g", i, u[i], x[i]);
                        ksp.destroy();
                        mc::evaluation(true, mc::hash_str(mc::current));
                    });
                }
    } while (std::next_permutation(order.begin(), order.end()));
}
// - lap u + c u = f, with f of low degree
template <class K, int r> static void problem(World<K> & w, const std::vector<Edge> & sides, uint64_t mask, bool reaction, int options, int i, int j)
{
    using element_t = typename K::element_t;
    using rule_t = typename K::template rule_t<r>;
    constexpr int n = K::n_nodes;
    const auto constrained = places_on<K>(sides, mask);
    auto manifold = mito::manifolds::manifold(w.mesh, w.system);
    auto zero = mf::zero<typename K::X>;
    const auto where = domain(w, sides, mask);
    auto constraints = mito::constraints::dirichlet_bc(where, zero);
    auto fs = fem::function_space<element_t>(manifold, constraints);
    const auto f = monomial_field<K>(i, j);
    auto stiffness = fem::blocks::grad_grad_block<element_t, rule_t>();
    auto mass = fem::blocks::mass_block<element_t, rule_t>();
    auto load = fem::blocks::source_term_block<element_t, rule_t>(f);
    auto form = fem::weakform<element_t>();
    form.add_block(stiffness);
    if (reaction) form.add_block(mass);
    form.add_block(load);
    // the same by hand
    constexpr auto q = rule_t();
    auto integral = [&](const Poly & p, double m) {
        if (p.degree() <= r) return p.integral(K::dim, m);
        double t = 0;
        for (int k = 0; k < q.npoints; ++k) t += q.weight(k) * p(barycentric<K>(q.point(k)));
        return t * m / K::dim;
    };
    std::map<Edge, int> number;
    for (auto & c : w.cells)
        for (int a = 0; a < n; ++a)
            if (auto p = World<K>::place(c, a); !constrained.count(p)) number.insert({ p, (int) number.size() });
    int N = (int) number.size();
    if (N == 0) return;
    Matrix A(N, std::vector<double>(N, 0));
    std::vector<double> b(N, 0), x;
    auto s = shapes<K>();
    for (auto & c : w.cells) {
        auto corners = w.corners(c);
        auto g = gradients(corners);
        double m = measure(corners);
        for (int a = 0; a < n; ++a) {
            auto p = number.find(World<K>::place(c, a));
            if (p == number.end()) continue;
            b[p->second] += integral(monomial(corners, i, j) * s[a], m);
            for (int e = 0; e < n; ++e) {
                auto o = number.find(World<K>::place(c, e));
                if (o == number.end()) continue;
                for (int d = 0; d < K::dim; ++d) A[p->second][o->second] += integral(s[a].derivative(g, d) * s[e].derivative(g, d), m);
                if (reaction) A[p->second][o->second] += integral(s[a] * s[e], m);
            }
        }
    }
    if (!solve(A, b, x)) return;    // some part of the domain is not held
    auto system = fem::discrete_system<petsc::linear_system_t>("bvp" + std::to_string(fresh_label()), fs, form);
    auto solver = mito::solvers::linear_solver<petsc::ksp_t>(system);
    solver.set_options(OPTIONS[options]);
    double size = 1;
    for (double v : x) size = std::max(size, std::abs(v));
    for (int k = 0; k < 2; ++k) {
        solver.solve();
        const auto & u = system.solution();
        auto elements = w.elements(fs);
        for (size_t c = 0; c < elements.size(); ++c)
            for (int a = 0; a < n; ++a) {
                auto p = World<K>::place(w.cells[c], a);
                double v = u(elements[c]->connectivity()[a]), want = constrained.count(p) ? 0 : x[number.at(p)];
                mc::require(near(v, want, 100 * size), "problem", "the solution is %.15g instead of %.15g between nodes %d and %d, solved %d times", v, want, p[0], p[1], k + 1);
            }
        mc::transition();
    }
    solver.destroy();
    mc::evaluation(true, mc::mix(mc::hash_str(mc::current), options));
}
template <class K> static void problems(const char * name, const Grid & grid, int most)
{
    int n = (int) grid.cells.size();
    for (int set = 1; set < 1 << n; ++set) {
        std::vector<Cell> cells;
        for (int i = 0; i < n; ++i)
            if (set >> i & 1) cells.push_back(grid.cells[i]);
        if ((int) cells.size() > most && set != (1 << n) - 1) continue;
        const auto sides = ::sides<K>(cells, false);
        std::vector<uint64_t> masks { whole(sides) };
        if (cells.size() < 3)
            for (uint64_t m = 0; m < masks[0]; ++m) masks.push_back(m);
        else
            for (size_t i = 0; i < sides.size(); ++i) masks.push_back(1ull << i);
        for (auto mask : masks)
            for (int kind = 0; kind < 4; ++kind)
                mc::for_case(name + str(cells) + mc::fmt(" sides %#llx of %zu, problem %d", (unsigned long long) mask, sides.size(), kind), [&] {
                    World<K> w(grid, cells);
                    problem<K, 2>(w, sides, mask, kind % 2, kind == 3 ? 3 : 0, kind == 0 ? 0 : 1, kind > 1 && K::dim == 2);
                    if constexpr (K::dim == 2)
                        if (kind == 1) problem<K, 4>(w, sides, mask, true, 0, 0, 1);
                });
    }
}
// more than a hundred equations
template <class K> static void many(const char * name, const Grid & grid)
{
    const auto sides = ::sides<K>(grid.cells, false);
    for (int kind = 0; kind < 4; ++kind)
        for (uint64_t mask : { ~0ull, 0x10001ull })
            mc::for_case(mc::fmt("%s, %zu cells, sides %#llx, problem %d", name, grid.cells.size(), (unsigned long long) mask, kind), [&] {
                World<K> w(grid, grid.cells);
                problem<K, 2>(w, sides, mask, kind % 2, kind == 3 ? 3 : 0, kind == 0 ? 0 : 1, kind > 1 && K::dim == 2);
            });
}
int main(int argc, char ** argv)
{
    // MPI on this machine alone
    setenv("OMPI_ALLOW_RUN_AS_ROOT", "1", 1), setenv("OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1", 1), setenv("OMPI_MCA_plm", "isolated", 1), setenv("OMPI_MCA_btl", "self", 1);
    mito::petsc::initialize();
    mc::init(argc, argv, "C27");
    journal::info_t channel("discretization.discrete_system");
    channel.deactivate();
#if FOCUS == 1
    for (int o = 0; o < 4; ++o) {
        mc::explore(mc::fmt("two equations, options %d", o), mc::pick(o ? 3 : 4, o ? 4 : 5), [&] { return Histories(2, o); });
        mc::explore(mc::fmt("three equations, options %d", o), mc::pick(o ? 2 : 4, o ? 3 : 5), [&] { return Histories(3, o); });
    }
    // small and large entries: what is small is not nothing
    for (double unit : { 0x1p-60, 1., 0x1p40 })
        for (double load : { 0x1p-60, 1., 0x1p40 })
            if (unit != 1 || load != 1)
                for (int o : { 0, 3 }) {
                    double u = o == 0 && unit < 1 ? 0x1p-30 : unit;    // for LU by PETSc, pivots below 2e-14 are zero
                    for (char begin : { 'a', 'i' }) mc::explore(mc::fmt("two equations, options %d, entries in units of %g and %g, begin '%c'", o, u, load, begin), mc::pick(3, 4), [&] { return Histories(2, o, u, load, begin); });
                }
    isolation();
    grammar();
    many<Seg1>("linear segments", turned(many_cells<1>(mc::pick(450, 1200), 7)));
    many<Tri1>("linear triangles", turned(many_cells<2>(mc::pick(20, 24), 7)));
    problems<Seg1>("linear segments", LINE, 5);
    problems<Tri1>("linear triangles", SQUARE, mc::pick(3, 8));
#else
    many<Tri2>("quadratic triangles", turned(many_cells<2>(mc::pick(10, 13), 7)));
    problems<Tri2>("quadratic triangles", SQUARE, mc::pick(3, 6));
#endif
    return mc::finish();
}
