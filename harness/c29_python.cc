// C29: the python module hands out what the library computes, and python objects keep what they need
#include "compat.h"
#include <bits/stdc++.h>
#include <pybind11/embed.h>
#include "../extensions/mito/mito.cc"
#include "mc.h"

namespace py = pybind11;
using std::string;
using std::vector;

static py::dict * names = nullptr;

static void run(const string & code)
{
    py::exec(code, *names);
}
static py::object value(const string & code)
{
    return py::eval(code, *names);
}
static double number(const string & code)
{
    return value(code).cast<double>();
}
// the name of the exception that {code} raises, or nothing
static string raised(const string & code)
{
    try {
        run(code);
    } catch (py::error_already_set & e) {
        auto name = e.type().attr("__name__").cast<string>();
        return name;
    }
    return "";
}

// ---------------------------------------------------------------- files
struct Grid {
    vector<std::array<double, 2>> points;
    vector<std::array<int, 3>> cells;
};

static string write(const string & path, const Grid & g)
{
    std::ofstream f(path);
    f << "2\n" << g.points.size() << " " << g.cells.size() << " 1\n";
    f << std::setprecision(17);
    for (auto & p : g.points) f << p[0] << " " << p[1] << "\n";
    for (auto & c : g.cells) f << "3 " << c[0] + 1 << " " << c[1] + 1 << " " << c[2] + 1 << " 1\n";
    return path;
}

static double monomial(int k, double x, double y)
{
    switch (k) {
        case 0: return 1;
        case 1: return x;
        case 2: return y;
        case 3: return x * x;
        case 4: return x * y;
        default: return y * y;
    }
}
static const char * monomials[] = { "1.", "x[0]", "x[1]", "x[0]*x[0]", "x[0]*x[1]", "x[1]*x[1]" };

// (signed, as the volumes of cells are)
static double area(const Grid & g, const std::array<int, 3> & c)
{
    auto &p = g.points[c[0]], &q = g.points[c[1]], &r = g.points[c[2]];
    return 0.5 * ((q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0]));
}

// the integral by the midpoints of the sides, exact up to degree two
template <class F>
static double integral(const Grid & g, F f)
{
    double s = 0;
    for (auto & c : g.cells)
        for (int i = 0; i < 3; ++i) {
            auto &p = g.points[c[i]], &q = g.points[c[(i + 1) % 3]];
            s += area(g, c) / 3 * f((p[0] + q[0]) / 2, (p[1] + q[1]) / 2);
        }
    return s;
}

static bool close(double a, double b)
{
    return std::fabs(a - b) <= 1e-11 * (1 + std::fabs(b));
}

// a lattice of nx by ny squares, each cut in two, with one node moved
static Grid lattice(int nx, int ny)
{
    Grid g;
    for (int j = 0; j <= ny; ++j)
        for (int i = 0; i <= nx; ++i) g.points.push_back({ double(i), 0.5 * j });
    g.points[nx + 2][0] += 0.125;
    auto at = [&](int i, int j) { return j * (nx + 1) + i; };
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i) {
            g.cells.push_back({ at(i, j), at(i + 1, j), at(i + 1, j + 1) });
            g.cells.push_back({ at(i, j), at(i + 1, j + 1), at(i, j + 1) });
        }
    return g;
}

// ---------------------------------------------------------------- coordinates
template <int D>
static void coordinates(const string & cls)
{
    vector<double> some { 0, 1, -2.5, 1e300 };
    vector<vector<double>> tuples { {} };
    for (int d = 0; d < D; ++d) {
        vector<vector<double>> next;
        for (auto & t : tuples)
            for (double v : some) { next.push_back(t); next.back().push_back(v + (v < 1e9 ? d * 0.25 : 0)); }
        tuples = next;
    }
    auto text = [](const vector<double> & t, const char * open, const char * shut) {
        string s = open;
        for (auto v : t) s += mc::fmt("%.17g,", v);
        return s + shut;
    };
    mc::for_case(cls + " default", [&] {
        run("p = mito." + cls + "()");
        for (int d = 0; d < D; ++d)
            mc::require(number(mc::fmt("p[%d]", d)) == 0, "coordinates", "new %s have component %d "
                        "at %g", cls.c_str(), d, number(mc::fmt("p[%d]", d)));
        mc::evaluation(true, mc::hash_str(mc::current));
    });
    for (auto & t : tuples)
        mc::for_case(cls + text(t, "(", ")"), [&] {
            for (int how = 0; how < 2; ++how) {
                run("p = mito." + cls + "(" + (how ? text(t, "[", "]") : text(t, "(", ")")) + ")");
                // (another one, and the first still is what it was)
                run("q = mito." + cls + "(" + text(vector<double>(D, 7), "(", ")") + ")");
                for (int d = 0; d < D; ++d) {
                    double got = number(mc::fmt("p[%d]", d));
                    mc::require(got == t[d], "coordinates", "component %d of %s is %.17g", d,
                                text(t, "(", ")").c_str(), got);
                    mc::require(number(mc::fmt("q[%d]", d)) == 7, "coordinates", "a second point reads %g", number(mc::fmt("q[%d]", d)));
                    mc::evaluation(true, mc::hash_str(mc::current));
                }
                // outside there is nothing
                for (int i : { D, D + 1, D + 2, 100, 1 << 30, -D - 1, -D - 2, -100 }) {
                    auto e = raised(mc::fmt("p[%d]", i));
                    mc::require(e == "IndexError", "index", "component %d of a point in %dD %s",
                                i, D, e.empty() ? "can be read" : ("raises " + e).c_str());
                    mc::evaluation(true, mc::hash_str(mc::current));
                }
                // (as seen from the end, if at all)
                for (int i = -D; i < 0; ++i) {
                    auto e = raised(mc::fmt("p[%d]", i));
                    mc::require(e == "IndexError" || (e.empty() && number(mc::fmt("p[%d]", i)) == t[D + i]),
                                "index", "component %d of %s is wrong", i, text(t, "(", ")").c_str());
                    mc::evaluation(true, mc::hash_str(mc::current));
                }
                // iterating visits each component once
                run("seen = []\nfor v in p:\n    seen.append(v)\n    if len(seen) > 20: break");
                auto seen = value("seen").cast<py::list>();
                mc::require(py::len(seen) == D, "iteration", "iterating over a point in %dD visits %d "
                            "components", D, int(py::len(seen)));
                for (int d = 0; d < D; ++d)
                    mc::require(seen[d].cast<double>() == t[d], "iteration", "iterating visits %g at %d",
                                seen[d].cast<double>(), d);
                mc::evaluation(true, mc::hash_str(mc::current));
            }
            mc::state(mc::hash_str(text(t, "(", ")")));
        });
    for (int n = 0; n <= 5; ++n)
        if (n != D)
            mc::for_case(mc::fmt("%s of %d numbers", cls.c_str(), n), [&] {
                mc::require(raised("mito." + cls + "(" + text(vector<double>(n, 1), "(", ")") + ")")
                                == "TypeError",
                            "coordinates", "%s can be made of %d numbers", cls.c_str(), n);
                mc::evaluation(true, mc::hash_str(mc::current));
            });
    for (string bad : { "('a',)*", "(None,)*" })
        mc::for_case(cls + " of " + bad, [&] {
            mc::require(raised("mito." + cls + "(" + bad + std::to_string(D) + ")") == "TypeError",
                        "coordinates", "%s can be made of %s", cls.c_str(), bad.c_str());
            mc::evaluation(true, mc::hash_str(mc::current));
        });
}

// ---------------------------------------------------------------- fields
template <int D>
static void fields()
{
    string field = mc::fmt("mito.ScalarField%dD", D), point = mc::fmt("mito.Coordinates%dD", D);
    for (int e0 = 0; e0 <= 2; ++e0)
        for (int e1 = 0; e1 <= 2; ++e1)
            for (int e2 = 0; e2 <= (D == 3 ? 2 : 0); ++e2)
                mc::for_case(mc::fmt("field %dD x^%d y^%d z^%d", D, e0, e1, e2), [&] {
                    string body = mc::fmt("x[0]**%d * x[1]**%d", e0, e1)
                        + (D == 3 ? mc::fmt(" * x[2]**%d", e2) : "");
                    // a function that is forgotten by all but the field, and one that is not
                    run("h = " + field + "(lambda x: " + body + ")");
                    run("def g(x):\n    return 1 + 2 * (" + body + ")");
                    run("k = " + field + "(g)");
                    for (double x : { 0., 1., -2., 0.5 })
                        for (double y : { 0., 1., 3. })
                            for (double z : { 0., -1.5 }) {
                                if (D == 2 && z != 0) continue;
                                run("p = " + point + mc::fmt("((%g,%g", x, y) + (D == 3 ? mc::fmt(",%g", z) : "") + "))");
                                double want = std::pow(x, e0) * std::pow(y, e1) * std::pow(z, e2);
                                double a = number("h(p)"), b = number("k(p)");
                                mc::require(close(a, want), "field", "%s at (%g,%g,%g) is %g", body.c_str(), x, y, z, a);
                                mc::require(close(b, 1 + 2 * want), "field", "1 + 2 %s at (%g,%g,%g) is %g", body.c_str(), x, y, z, b);
                                mc::evaluation(true, mc::hash_str(mc::current));
                            }
                    mc::state(mc::hash_str(body));
                    run("del h, k, g, p");
                });
    mc::for_case(mc::fmt("field %dD, other functions", D), [&] {
        // the function is asked every time
        run("calls = []\nclass F:\n    def __init__(self): self.a = 1\n"
            "    def __call__(self, x):\n        calls.append(x)\n        return self.a * x[0]\nobj = F()");
        run("h = " + field + "(obj)");
        string at = D == 3 ? "((%g, 0., 0.))" : "((%g, 0.))";
        for (int i = 1; i < 6; ++i) {
            run(mc::fmt("obj.a = %d", i));
            double got = number("h(" + point + mc::fmt(at.c_str(), double(i)) + ")");
            mc::require(close(got, i * i), "field", "a field whose function changes yields %g for %d", got, i * i);
            mc::require(number("len(calls)") == i, "field", "the function was called %g times, not %d", number("len(calls)"), i);
            mc::evaluation(true, mc::hash_str(mc::current));
        }
        // points that were kept are still what they were
        for (int i = 1; i < 6; ++i)
            mc::require(number(mc::fmt("calls[%d][0]", i - 1)) == i, "field", "a point kept by the function reads %g, not %d", number(mc::fmt("calls[%d][0]", i - 1)), i);
        // integers are numbers, what is not is an error, and errors are passed on
        run("k = " + field + "(lambda x: 3)");
        mc::require(number("k(" + point + "())") == 3, "field", "a function that returns an integer yields %g", number("k(" + point + "())"));
        run("k = " + field + "(lambda x: 'three')");
        mc::require(!raised("k(" + point + "())").empty(), "field", "a function that returns text is taken for a number");
        run("def g(x):\n    if x[0] > 1: raise KeyError('no')\n    return 2.\nk = " + field + "(g)");
        mc::require(raised("k(" + point + mc::fmt(at.c_str(), 5.) + ")") == "KeyError", "field", "a function's exception is lost");
        mc::require(number("k(" + point + mc::fmt(at.c_str(), 1.) + ")") == 2, "field", "a field is of no use after an exception");
        mc::require(raised(field + "(3)") == "TypeError", "field", "a field can be made of a number");
        mc::evaluation(true, mc::hash_str(mc::current));
        run("del h, k, g, obj, calls");
    });
}

// ---------------------------------------------------------------- integrals
static void integrate(const string & label, const Grid & g)
{
    mc::for_case(label, [&] {
        write("grid.summit", g);
        run("cs = mito.CoordinateSystem2D()\nmesh = mito.SimplicialMesh2D('grid.summit', cs)");
        std::remove("grid.summit");
        run("calls = []\nman = mito.ManifoldTriangle2D(mesh, cs)\nint_ = mito.GaussIntegrator2Triangle2D(man)");
        // the cells
        mc::require(number("len(mesh.cells)") == g.cells.size(), "cells", "a mesh of %zu triangles has %g cells", g.cells.size(), number("len(mesh.cells)"));
        mc::require(number("len(list(mesh.cells))") == g.cells.size(), "cells", "iterating over %zu cells visits %g", g.cells.size(), number("len(list(mesh.cells))"));
        for (int k = 0; k < 6; ++k) {
            run(string("fld = mito.ScalarField2D(lambda x: ") + monomials[k] + ")");
            double got = number("int_.integrate(fld)");
            double want = integral(g, [&](double x, double y) { return monomial(k, x, y); });
            mc::require(close(got, want), "integral", "the integral of %s is %.15g, not %.15g", monomials[k], got, want);
            mc::evaluation(true, mc::hash_str(mc::current));
        }
        // where the function is asked
        run("fld = mito.ScalarField2D(lambda x: calls.append((x[0], x[1])) or 1.)\nvol = int_.integrate(fld)");
        for (auto item : value("calls").cast<py::list>()) {
            auto [x, y] = item.cast<std::pair<double, double>>();
            bool inside = false;
            for (auto & c : g.cells) {
                double s = 0;
                for (int i = 0; i < 3; ++i) {
                    auto &p = g.points[c[i]], &q = g.points[c[(i + 1) % 3]];
                    s += 0.5 * std::fabs((q[0] - p[0]) * (y - p[1]) - (q[1] - p[1]) * (x - p[0]));
                }
                inside = inside || s <= std::fabs(area(g, c)) * (1 + 1e-9);
            }
            mc::require(inside, "integral", "the function is asked at (%g,%g), which is in no cell", x, y);
        }
        mc::evaluation(true, mc::hash_str(mc::current));
        mc::state(mc::hash_str(label));
        run("del fld, int_, man, mesh, cs, calls, vol");
        mc::trace();
    });
}

// ---------------------------------------------------------------- lifetimes
// names are bound and forgotten in every order that makes sense; what is still named keeps working
struct Names {
    Grid grids[2];
    struct Op { string text; int what, arg; };
    vector<Op> ops;
    bool cs = false;
    // which mesh (or none) each name refers to
    int mesh[2] = { 0, 0 }, manifold = -1, integrator = -1;
    bool field[2] = { false, false };
    bool cells = false;
    int cells_of = -1;

    Names()
    {
        grids[0] = lattice(1, 1);
        grids[1] = lattice(2, 1);
        grids[1].cells.erase(grids[1].cells.begin() + 1);
        // a clean slate
        run("for _n in ('cs', 'm0', 'm1', 'man', 'itg', 'f0', 'f1', 'cells'):\n    globals().pop(_n, None)");
        enabled();
    }
    int enabled()
    {
        ops.clear();
        auto add = [&](string t, int w, int a = 0) { ops.push_back({ t, w, a }); };
        if (!cs) add("cs = mito.CoordinateSystem2D()", 0);
        else add("del cs", 1);
        for (int i = 0; i < 2; ++i) {
            if (!mesh[i] && cs) add(mc::fmt("m%d = mito.SimplicialMesh2D('%s.summit', cs)", i, i ? "two" : "one"), 2, i);
            if (mesh[i]) add(mc::fmt("del m%d", i), 3, i);
            // (coordinate systems know the points of their own meshes only)
            if (mesh[i] && cs && manifold != i && mesh[i] == epoch) add(mc::fmt("man = mito.ManifoldTriangle2D(m%d, cs)", i), 4, i);
        }
        if (manifold >= 0) add("del man", 5);
        if (manifold >= 0 && integrator != manifold) add("itg = mito.GaussIntegrator2Triangle2D(man)", 6);
        if (integrator >= 0) add("del itg", 7);
        if (!field[0]) add("f0 = mito.ScalarField2D(lambda x: 1 + x[0] * x[1])", 8);
        else add("del f0", 9);
        if (!cells && mesh[1]) add("cells = m1.cells", 10);
        else if (cells) add("del cells", 11);
        return ops.size();
    }
    int epoch = 0;
    string name(int i) { return ops[i].text; }
    void apply(int i)
    {
        auto op = ops[i];
        run(op.text);
        switch (op.what) {
            case 0: cs = true; ++epoch; break;
            case 1: cs = false; break;
            case 2: mesh[op.arg] = epoch; break;
            case 3: mesh[op.arg] = 0; break;
            case 4: manifold = op.arg; break;
            case 5: manifold = -1; break;
            case 6: integrator = manifold; break;
            case 7: integrator = -1; break;
            case 8: field[0] = true; break;
            case 9: field[0] = false; break;
            case 10: cells = true; break;
            case 11: cells = false; break;
        }
        enabled();
    }
    void check()
    {
        auto f = [](double x, double y) { return 1 + x * y; };
        // what can be used is used
        for (int i = 0; i < 2; ++i)
            if (mesh[i]) {
                double n = number(mc::fmt("len(m%d.cells)", i));
                mc::require(n == grids[i].cells.size(), "cells", "mesh %d has %g cells, not %zu", i, n, grids[i].cells.size());
                mc::evaluation(true, mc::hash_str(mc::current));
            }
        if (cells) {
            double n = number("len(list(cells))");
            mc::require(n == grids[1].cells.size(), "cells", "the cells number %g, not %zu", n, grids[1].cells.size());
            mc::evaluation(true, mc::hash_str(mc::current));
        }
        if (field[0]) {
            double v = number("f0(mito.Coordinates2D((2., 3.)))");
            mc::require(v == 7, "field", "a field yields %g, not 7", v);
            mc::evaluation(true, mc::hash_str(mc::current));
        }
        auto measure = [&](const char * itg, int of) {
            double got = number(mc::fmt("%s.integrate(mito.ScalarField2D(lambda x: 1 + x[0] * x[1]))", itg));
            double want = integral(grids[of], f);
            mc::require(close(got, want), "integral", "%s over mesh %d yields %.15g, not %.15g", itg, of, got, want);
            if (field[0]) {
                got = number(mc::fmt("%s.integrate(f0)", itg));
                mc::require(close(got, want), "integral", "%s over mesh %d yields %.15g, not %.15g", itg, of, got, want);
            }
            mc::evaluation(true, mc::hash_str(mc::current));
        };
        if (integrator >= 0) measure("itg", integrator);
        if (manifold >= 0) measure("mito.GaussIntegrator2Triangle2D(man)", manifold);
    }
    void finish() {}
    uint64_t hash()
    {
        uint64_t h = cs;
        for (int i = 0; i < 2; ++i) h = mc::mix(h, mesh[i] ? 1 + (mesh[i] == epoch) : 0);
        h = mc::mix(h, manifold + 1);
        h = mc::mix(h, integrator + 1);
        return mc::mix(h, field[0] * 2 + cells);
    }
};

int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C29");
    setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
    PyImport_AppendInittab("mito", PyInit_mito);
    py::scoped_interpreter interpreter;
    py::dict globals;
    globals["__builtins__"] = py::module_::import("builtins");
    names = &globals;
    run("import mito");

#if FOCUS == 1
    coordinates<2>("Coordinates2D");
    coordinates<3>("Coordinates3D");
    fields<2>();
    fields<3>();
    // all sets of triangles, with every numbering of the corners of the smaller ones
    {
        Grid all = lattice(2, mc::pick(2, 3));
        int n = all.cells.size();
        for (int s = 0; s < (1 << n); ++s) {
            Grid g = all;
            g.cells.clear();
            for (int i = 0; i < n; ++i)
                if (s >> i & 1) g.cells.push_back(all.cells[i]);
            int m = g.cells.size();
            int turns = m <= 2 ? (m == 0 ? 1 : m == 1 ? 6 : 36) : 2;
            for (int t = 0; t < turns; ++t) {
                Grid h = g;
                for (int i = 0; i < m; ++i) {
                    int k = m <= 2 ? (i ? t / 6 : t % 6) : t ? (i + 1) % 6 : 0;
                    for (int j = 0; j < k; ++j) std::next_permutation(h.cells[i].begin(), h.cells[i].end(), [&](int a, int b) { return a < b; });
                }
                integrate(mc::fmt("set %d numbering %d", s, t), h);
            }
        }
    }
    // more triangles than the containers of the library take at once
    for (int n : { 7, 8, 11 }) integrate(mc::fmt("lattice %d", n), lattice(n, n));
    mc::for_case("missing file", [&] {
        run("cs = mito.CoordinateSystem2D()");
        mc::require(raised("mito.SimplicialMesh2D('nowhere.summit', cs)") == "RuntimeError", "missing", "a mesh can be read from a file that does not exist");
        mc::evaluation(true, mc::hash_str(mc::current));
    });
#else
    write("one.summit", lattice(1, 1));
    {
        Grid g = lattice(2, 1);
        g.cells.erase(g.cells.begin() + 1);
        write("two.summit", g);
    }
    mc::explore("names", mc::pick(7, 8), [] { return Names(); });
    mc::bfs("names-merged", 40, mc::thorough() ? 60000 : 3000, [] { return Names(); });
    // iterators over cells whose mesh nobody else names
    for (int taken = 0; taken < 3; ++taken)
        for (int held = 0; held < 2; ++held)
            mc::for_case(mc::fmt("iterator, %d cells taken, cells %s", taken, held ? "held" : "dropped"), [&] {
                run(mc::fmt("def _walk():\n  cs = mito.CoordinateSystem2D()\n  m = mito.SimplicialMesh2D('two.summit', cs)\n  c = m.cells\n  w = iter(c)\n"
                            "  first = [next(w) for _ in range(%d)]\n  return w, %s, first\n_w = _walk()\n_other = mito.SimplicialMesh2D('one.summit', mito.CoordinateSystem2D())",
                            taken, held ? "c" : "0"));
                double n = number("len(list(_w[0]))");
                mc::require(n == 3 - taken, "cells", "%g cells are left after taking %d of 3", n, taken);
                run("del _w, _other, _walk");
                mc::evaluation(true, mc::hash_str(mc::current));
                mc::state(mc::hash_str(mc::current));
                mc::trace();
            });
#endif
    run("globals().clear()");
    return mc::finish();
}
