// C26: discrete systems. Every set of cells of small grids, every choice of constraints, with blocks that tell every
// entry of every element apart, and a linear system that records what is assembled into it.
#include "grids.h"
#include <mito/solvers.h>
#ifndef FOCUS
#define FOCUS 1
#endif
static bool near(double a, double b, double scale) { return std::abs(a - b) <= 1e-10 * scale; }
// the entries of a matrix that something was added to
struct Sparse : std::map<std::pair<int, int>, double> {
    double at(int i, int j) const
    {
        auto it = find({ i, j });
        return it == end() ? 0 : it->second;
    }
    Matrix full(int n) const
    {
        Matrix m(n, std::vector<double>(n, 0));
        for (auto & [k, v] : *this) m[k.first][k.second] = v;
        return m;
    }
};
// a linear system, and a solver of it
struct Recorder {
    std::string label;
    int n = -1, created = 0;
    Sparse A;
    std::vector<double> b, x;
    bool numbers = false;    // the solution is 1, 2, 3...
    Recorder(const std::string & l) : label(l) {}
    void create(int size)
    {
        ++created;
        n = size;
        mc::require(n >= 0, "size", "a system of %d equations", n);
        A.clear();
        b.assign(n, 0);
        x.assign(n, 0);
    }
    void destroy() {}
    int n_equations() const { return n; }
    void row(int i) const { mc::require(i >= 0 && i < n, "row", "equation %d of %d", i, n); }
    void add_matrix_value(int i, int j, const double & v) { row(i), row(j), A[{ i, j }] += v; }
    void insert_matrix_value(int i, int j, const double & v) { row(i), row(j), A[{ i, j }] = v; }
    void add_rhs_value(int i, const double & v) { row(i), b[i] += v; }
    void insert_rhs_value(int i, const double & v) { row(i), b[i] = v; }
    void assemble() {}
    template <class U> void get_solution(U & u) const
    {
        mc::require((int) std::size(u) == n, "size", "%zu values for %d equations", std::size(u), n);
        for (int i = 0; i < n; ++i) u[i] = numbers ? i + 1 : x[i];
    }
    void print() const {}
};
struct Solver {
    Recorder & system;
    static inline int alive = 0, solved = 0;
    static inline std::string options;
    Solver(Recorder & s) : system(s) {}
    void create() { ++alive; }
    void destroy() { --alive; }
    void set_options(const std::string & o) { options = o; }
    void solve()
    {
        ++solved;
        mc::require(::solve(system.A.full(system.n), system.b, system.x), "singular", "the system solved is singular");
    }
    void print() const {}
};
// blocks with a different entry everywhere
static double units = 1;    // of the entries
static double tag(int kind, int cell, int a, int b) { return units * ((int) (mc::mix(mc::mix(mc::mix(kind + 1, cell + 1), a + 1), b + 1) % 2000) - 999.5) / 128.0; }
template <class K> struct Tagged : fem::blocks::assembly_block_t<typename K::element_t, mt::matrix_t<K::n_nodes>> {
    const World<K> & w;
    int kind;
    Tagged(const World<K> & w, int kind) : w(w), kind(kind) {}
    auto compute(const typename K::element_t & e) const -> mt::matrix_t<K::n_nodes> override
    {
        mt::matrix_t<K::n_nodes> m;
        int cell = w.number(e);
        for (int a = 0; a < K::n_nodes; ++a)
            for (int b = 0; b < K::n_nodes; ++b) m[{ a, b }] = value(cell, a, b);
        return m;
    }
    // one kind is well-conditioned, to be solved
    double value(int cell, int a, int b) const { return tag(kind, cell, a, b) + (a == b ? 400 * units : 0); }
};
template <class K> struct TaggedLoad : fem::blocks::assembly_block_t<typename K::element_t, mt::vector_t<K::n_nodes>> {
    const World<K> & w;
    int kind;
    TaggedLoad(const World<K> & w, int kind) : w(w), kind(kind) {}
    auto compute(const typename K::element_t & e) const -> mt::vector_t<K::n_nodes> override
    {
        mt::vector_t<K::n_nodes> v;
        int cell = w.number(e);
        for (int a = 0; a < K::n_nodes; ++a) v[a] = value(cell, a);
        return v;
    }
    double value(int cell, int a) const { return tag(kind, cell, a, 100); }
};
template <class K, class Space> static void systems(World<K> & w, const Space & fs, const std::set<Edge> & constrained, int forms)
{
    using element_t = typename K::element_t;
    constexpr int n = K::n_nodes;
    const auto elements = w.elements(fs);
    std::map<Edge, md::discretization_node_t> dofs;
    for (size_t k = 0; k < elements.size(); ++k)
        for (int a = 0; a < n; ++a) dofs[World<K>::place(w.cells[k], a)] = elements[k]->connectivity()[a];
    std::vector<Edge> free;
    for (auto & [p, d] : dofs)
        if (!constrained.count(p)) free.push_back(p);
    int N = (int) free.size();
    Tagged<K> A(w, 0), B(w, 1);
    TaggedLoad<K> f(w, 2), g(w, 3);
    for (int blocks = 0; blocks < forms; ++blocks) {
        // the bits tell which blocks are in the form; 16: the first one twice
        auto form = fem::weakform<element_t>();
        if (blocks & 4) form.add_block(f);
        if (blocks & 1) form.add_block(A);
        if (blocks & 8) form.add_block(g);
        if (blocks & 2) form.add_block(B);
        if (blocks & 16) form.add_block(A);
        auto system = fem::discrete_system<Recorder>("this", fs, form);
        auto & ls = system.linear_system();
        mc::require(ls.label == "this", "label", "the linear system is called '%s'", ls.label.c_str());
        mc::require(system.n_equations() == N && ls.n_equations() == N && ls.created == 1, "equations", "%d equations in %d, created %d times, for %d degrees of freedom", system.n_equations(), ls.n_equations(), ls.created, N);
        const auto & u = system.solution();
        mc::require(u.nodal_values().size() == (int) dofs.size(), "solution", "the solution has %d values at %zu degrees of freedom", u.nodal_values().size(), dofs.size());
        for (auto & [p, d] : dofs) mc::require(u(d) == 0, "solution", "the solution begins at %g", u(d));
        // which equation is whose?
        ls.numbers = true;
        system.read_solution();
        ls.numbers = false;
        std::map<Edge, int> equation;
        std::vector<bool> taken(N, false);
        for (auto & p : free) {
            double v = u(dofs.at(p));
            int e = (int) v - 1;
            mc::require(v == e + 1 && e >= 0 && e < N && !taken[e], "numbering", "the value %g was read for a degree of freedom", v);
            taken[e] = true;
            equation[p] = e;
        }
        for (auto & p : constrained) mc::require(u(dofs.at(p)) == 0, "constrained", "the value %g was read for a constrained degree of freedom", u(dofs.at(p)));
        // what is read replaces what was read before
        for (int k = 0; k < 3; ++k) {
            for (int i = 0; i < N; ++i) ls.x[i] = (k == 0 ? i % 2 : k == 1 ? (i + 1) % 2 : 0) * -(i + 1) * 1e-3 * units;
            system.read_solution();
            for (auto & p : free) mc::require(u(dofs.at(p)) == ls.x[equation[p]], "solution", "the value %g was read instead of %g", u(dofs.at(p)), ls.x[equation[p]]);
            for (auto & p : constrained) mc::require(u(dofs.at(p)) == 0, "constrained", "the value %g was read for a constrained degree of freedom", u(dofs.at(p)));
        }
        // what is assembled
        Sparse want;
        std::vector<double> rhs(N, 0);
        double kA = (blocks & 1 ? 1 : 0) + (blocks & 16 ? 1 : 0), kB = blocks & 2 ? 1 : 0, kf = blocks & 4 ? 1 : 0, kg = blocks & 8 ? 1 : 0;
        for (int c = 0; c < (int) w.cells.size(); ++c)
            for (int a = 0; a < n; ++a) {
                auto p = equation.find(World<K>::place(w.cells[c], a));
                if (p == equation.end()) continue;
                rhs[p->second] += kf * f.value(c, a) + kg * g.value(c, a);
                for (int b = 0; b < n; ++b) {
                    auto q = equation.find(World<K>::place(w.cells[c], b));
                    if (q != equation.end()) want[{ p->second, q->second }] += kA * A.value(c, a, b) + kB * B.value(c, a, b);
                }
            }
        system.assemble();
        for (int i = 0; i < N; ++i) {
            mc::require(near(ls.b[i], rhs[i], 100 * units), "rhs", "entry %d of the right-hand side is %.15g instead of %.15g", i, ls.b[i], rhs[i]);
        }
        for (auto both : { &ls.A, &want })
            for (auto & [k, value] : *both) mc::require(near(ls.A.at(k.first, k.second), want.at(k.first, k.second), 1000 * units), "matrix", "entry (%d, %d) of the matrix is %.15g instead of %.15g", k.first, k.second, ls.A.at(k.first, k.second), want.at(k.first, k.second));
        mc::transition(2);
        // solve it, unless it is too large for that
        if (blocks & 1 && N < 400) {
            auto fresh = fem::discrete_system<Recorder>("other", fs, form);
            Solver::alive = Solver::solved = 0;
            Solver::options.clear();
            {
                auto solver = mito::solvers::linear_solver<Solver>(fresh);
                solver.set_options("-some options");
                mc::require(Solver::alive == 1 && Solver::options == "-some options", "solver", "%d solvers created, with options '%s'", Solver::alive, Solver::options.c_str());
                // the system, solved repeatedly
                for (int k = 1; k <= 2; ++k) {
                    solver.solve();
                    mc::require(Solver::solved == k, "solver", "solving called the solver %d times", Solver::solved);
                    std::vector<double> x;
                    ::solve(want.full(N), rhs, x);
                    const auto & v = fresh.solution();
                    // the equations of this one
                    for (auto & p : free) mc::require(near(v(dofs.at(p)), x[equation[p]], 1 + std::abs(x[equation[p]])), "solution", "a value of the solution is %.15g instead of %.15g", v(dofs.at(p)), x[equation[p]]);
                    for (auto & p : constrained) mc::require(v(dofs.at(p)) == 0, "constrained", "a constrained value of the solution is %g", v(dofs.at(p)));
                    mc::transition();
                }
                solver.destroy();
                mc::require(Solver::alive == 0, "solver", "the solver is not destroyed");
            }
        }
    }
}
template <class K> static void run(const char * name, const Grid & grid, const std::vector<Cell> & cells, int which, int forms)
{
    // 3: two patterns of the sides; 0: the whole boundary; 1: every subset of all sides; 2: none and every single one
    const auto sides = ::sides<K>(cells, which > 0);
    std::vector<uint64_t> masks;
    if (which == 1)
        for (uint64_t m = 0; m < 1ull << sides.size(); ++m) masks.push_back(m);
    else if (which == 2) {
        masks.push_back(0);
        for (size_t i = 0; i < sides.size(); ++i) masks.push_back(1ull << i);
    } else if (which == 3) masks = { 0x8000000000000001ull, 0x5555555555555555ull };
    else masks.push_back(whole(sides));
    for (auto mask : masks)
        mc::for_case(name + str(cells) + mc::fmt(" sides %#llx of %zu", (unsigned long long) mask, sides.size()), [&] {
            World<K> w(grid, cells);
            const auto constrained = places_on<K>(sides, mask);
            auto manifold = mito::manifolds::manifold(w.mesh, w.system);
            auto zero = mf::zero<typename K::X>;
            const auto where = domain(w, sides, mask);
            auto constraints = mito::constraints::dirichlet_bc(where, zero);
            auto fs = fem::function_space<typename K::element_t>(manifold, constraints);
            systems<K>(w, fs, constrained, forms);
            mc::evaluation(true, mc::hash_str(mc::current));
        });
}
template <class K> static void all(const char * name, const Grid & grid)
{
    int n = (int) grid.cells.size();
    for (int set = 1; set < 1 << n; ++set) {
        std::vector<Cell> cells;
        for (int i = 0; i < n; ++i)
            if (set >> i & 1) cells.push_back(grid.cells[i]);
        int size = (int) cells.size();
        if (K::dim == 1) run<K>(name, grid, cells, 1, size < 3 ? 32 : 16);
        else {
            run<K>(name, grid, cells, 0, size == 1 ? 32 : 8);
            if (size <= mc::pick(2, 3)) run<K>(name, grid, cells, 1, size == 1 ? 32 : 8);
            else if (size <= mc::pick(5, 8)) run<K>(name, grid, cells, 2, 8);
            // other numberings of the corners
            for (int turn = 1; turn < 3; ++turn) {
                auto turned = cells;
                for (size_t i = 0; i < turned.size(); ++i) std::rotate(turned[i].begin(), turned[i].begin() + (turn * (i + 1)) % 3, turned[i].end());
                run<K>(name, grid, turned, size <= mc::pick(3, 8) ? 2 : 0, 6);
            }
        }
    }
}
int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C26");
    journal::info_t channel("discretization.discrete_system");
    channel.deactivate();
    for (double u : { 1e-15, 1e12 }) {
        units = u;
        auto text = mc::fmt("entries in units of %g, ", u);
#if FOCUS == 1
        run<Seg1>((text + "linear segments").c_str(), LINE, LINE.cells, 2, 16);
        run<Tri1>((text + "linear triangles").c_str(), SQUARE, SQUARE.cells, 2, 8);
#else
        run<Tri2>((text + "quadratic triangles").c_str(), SQUARE, SQUARE.cells, 2, 8);
#endif
    }
    units = 1;
    // in another quadrant
    const auto line = shifted(LINE, { -7, 0 }), square = shifted(SQUARE, { -6, -7 });
#if FOCUS == 1
    run<Seg1>("shifted, linear segments", line, line.cells, 2, 16);
    run<Tri1>("shifted, linear triangles", square, square.cells, 2, 8);
#else
    run<Tri2>("shifted, quadratic triangles", square, square.cells, 2, 8);
#endif
#if FOCUS == 1
    all<Seg1>("linear segments", LINE);
    all<Tri1>("linear triangles", SQUARE);
    for (int stride : { 1, 7 }) {
        auto line = turned(many_cells<1>(mc::pick(130, 300), stride)), square = turned(many_cells<2>(mc::pick(9, 12), stride));
        auto text = mc::fmt("by strides of %d, linear segments", stride);
        run<Seg1>(text.c_str(), line, line.cells, 3, 6);
        text = mc::fmt("by strides of %d, linear triangles", stride);
        run<Tri1>(text.c_str(), square, square.cells, 3, 6);
        run<Tri1>(text.c_str(), square, square.cells, 0, 6);
        // beyond a thousand equations
        auto long_line = turned(many_cells<1>(mc::pick(1200, 5000), stride)), fine = turned(many_cells<2>(mc::pick(34, 60), stride));
        text = mc::fmt("by strides of %d, linear segments", stride);
        run<Seg1>(text.c_str(), long_line, long_line.cells, 3, 2 + 4);
        text = mc::fmt("by strides of %d, linear triangles", stride);
        run<Tri1>(text.c_str(), fine, fine.cells, 3, 2 + 4);
    }
#else
    all<Tri2>("quadratic triangles", SQUARE);
    for (int stride : { 1, 7 }) {
        auto square = turned(many_cells<2>(mc::pick(8, 10), stride));
        auto text = mc::fmt("by strides of %d, quadratic triangles", stride);
        run<Tri2>(text.c_str(), square, square.cells, 3, 6);
        run<Tri2>(text.c_str(), square, square.cells, 0, 6);
    }
#endif
    return mc::finish();
}
