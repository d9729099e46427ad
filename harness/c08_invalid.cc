// C08: only closed, consistently oriented boundaries make a simplex.
// Every composition over a handful of vertices, in every order and orientation, and with the faces
// registered in every way (built in one orientation and flipped into the other).
#include "mc.h"
#include <mito/topology.h>
using namespace mito::topology;

// a face by its vertices; its directed boundary by the model
using Face = std::vector<int>;

static std::vector<Face> faces(int n, int nv)    // both orientations of every (n-1)-simplex
{
    std::vector<Face> r;
    if (n == 2)
        for (int i = 0; i < nv; ++i)
            for (int j = 0; j < nv; ++j)
                if (i != j) r.push_back({ i, j });
    if (n == 3)
        for (int i = 0; i < nv; ++i)
            for (int j = i + 1; j < nv; ++j)
                for (int k = j + 1; k < nv; ++k) {
                    r.push_back({ i, j, k });
                    r.push_back({ j, i, k });
                }
    return r;
}

// the model: the N+1 faces are those of one simplex on N+1 vertices, and their boundaries cancel
static bool valid(const std::vector<Face> & c)
{
    int n = c.size() - 1;
    std::set<int> vs;
    std::set<std::set<int>> fs;
    std::map<std::vector<int>, int> net;
    for (auto & f : c) {
        fs.insert(std::set<int>(f.begin(), f.end()));
        for (int v : f) vs.insert(v);
        if (n == 2) {
            net[{ f[0] }] -= 1;
            net[{ f[1] }] += 1;
        } else
            for (int i = 0; i < 3; ++i) {
                int a = f[i], b = f[(i + 1) % 3];
                net[{ std::min(a, b), std::max(a, b) }] += a < b ? 1 : -1;
            }
    }
    if ((int) vs.size() != n + 1 || (int) fs.size() != n + 1) return false;
    for (auto & [k, v] : net)
        if (v) return false;
    return true;
}

template <int N>
struct Space {
    std::vector<vertex_t> V;
    std::vector<simplex_t<N - 1>> F;
    std::vector<Face> names;
    // style 0: every face from its vertices; 1: every second face as the flip of the other;
    // 2: the other way around
    Space(int nv, int style)
    {
        for (int i = 0; i < nv; ++i) V.push_back(topology().vertex());
        names = faces(N, nv);
        for (auto & f : names) F.push_back(build(f, style));
    }
    simplex_t<N - 1> build(Face f, int style)
    {
        int sign = 1;
        for (size_t i = 0; i < f.size(); ++i)
            for (size_t j = i + 1; j < f.size(); ++j)
                if (f[i] > f[j]) sign = -sign;
        bool flip_it = style && (style == 1) == (sign < 0);
        if (flip_it) std::swap(f[0], f[1]);
        simplex_t<N - 1> s = [&] {
            if constexpr (N == 2) return topology().segment({ V[f[0]], V[f[1]] });
            else return topology().triangle({ V[f[0]], V[f[1]], V[f[2]] });
        }();
        return flip_it ? topology().flip(s) : s;
    }
};

template <int N>
static void judge(Space<N> & s, const std::vector<int> & idx, bool construct, const char * label)
{
    simplex_composition_t<N> c;
    std::vector<Face> f;
    std::string text;
    for (int i = 0; i <= N; ++i) {
        c[i] = s.F[idx[i]];
        f.push_back(s.names[idx[i]]);
        for (int v : f.back()) text += std::to_string(v);
        text += i < N ? "," : "";
    }
    bool want = valid(f);
    mc::for_case(mc::fmt("%s %s", label, text.c_str()), [&] {
        mc::what = text;
        mc::transition();
        mc::state(mc::hash_str(label + text));
        mc::trace();
        int r = mc::probe([&] { return isValid<N>(c); });
        mc::require(r == (want ? 0 : 1), "validity", "the composition {%s}, which is %s, is said to be %s",
                    text.c_str(), want ? "valid" : "invalid",
                    r == 0 ? "valid" : r == 1 ? "invalid" : "(the program died)");
        if (!construct) return;
        int before = topology().template n_simplices<N>();
        r = mc::probe([&] {
            bool threw = false;
            try {
                auto x = topology().template simplex<N>(c);
                // accepted: it has to be a sane simplex
                if (x.is_nullptr() || !x->sanityCheck()) _exit(7);
            } catch (...) {
                threw = true;
            }
            // a rejected simplex leaves no trace
            if (threw
                && (topology().template n_simplices<N>() != before || topology().template exists<N>(c)))
                return true;
            return !threw;
        });
        bool accepted = r == 0;
        mc::require(accepted == want, "acceptance", "the composition {%s}, which is %s, is %s",
                    text.c_str(), want ? "valid" : "invalid", accepted ? "accepted" : "rejected");
    });
}

static void segments()
{
    std::vector<vertex_t> V;
    std::vector<simplex_t<0>> F;
    for (int i = 0; i < 3; ++i) V.push_back(topology().vertex());
    for (int i = 0; i < 6; ++i) F.push_back(topology().template simplex<0>(V[i / 2], i % 2 ? -1 : +1));
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j)
            mc::for_case(mc::fmt("segment %d%c %d%c", i / 2, "+-"[i % 2], j / 2, "+-"[j % 2]), [&] {
                bool want = i / 2 != j / 2 && i % 2 != j % 2;
                simplex_composition_t<1> c { F[i], F[j] };
                mc::transition();
                mc::trace();
                mc::state(i * 6 + j + 1);
                mc::require(isValid<1>(c) == want, "validity", "segment is said to be %s", want ? "invalid" : "valid");
                int r = mc::probe([&] {
                    topology().template simplex<1>(c);
                    return true;
                });
                mc::require((r == 0) == want, "acceptance", "segment is %s", want ? "rejected" : "accepted");
            });
    for (int n = 1; n <= 3; ++n) {
        int total = 1;
        for (int i = 0; i <= n; ++i) total *= 4;
        std::vector<vertex_t> W;
        for (int i = 0; i < 4; ++i) W.push_back(topology().vertex());
        for (int code = 0; code < total; ++code) {
            std::vector<int> t;
            for (int i = 0, x = code; i <= n; ++i, x /= 4) t.push_back(x % 4);
            bool want = std::set<int>(t.begin(), t.end()).size() == t.size();
            std::string text;
            for (int v : t) text += std::to_string(v);
            mc::for_case("vertices " + text, [&] {
                mc::transition();
                mc::trace();
                mc::state(mc::hash_str("v" + text));
                int r = mc::probe([&] {
                    if (n == 1) return topology().segment({ W[t[0]], W[t[1]] })->sanityCheck();
                    if (n == 2) return topology().triangle({ W[t[0]], W[t[1]], W[t[2]] })->sanityCheck();
                    return topology().tetrahedron({ W[t[0]], W[t[1]], W[t[2]], W[t[3]] })->sanityCheck();
                });
                mc::require((r == 0) == want, "acceptance", "a simplex with vertices %s is %s", text.c_str(),
                            want ? "rejected" : "accepted");
            });
        }
    }
}

template <int N>
static void ordered(int nv, int style, bool construct)
{
    Space<N> s(nv, style);
    int n = s.F.size();
    std::string label = mc::fmt("N=%d,V=%d,style=%d ordered", N, nv, style);
    long total = 1;
    for (int i = 0; i <= N; ++i) total *= n;
    for (long code = 0; code < total; ++code) {
        std::vector<int> idx;
        long x = code;
        for (int i = 0; i <= N; ++i, x /= n) idx.push_back(x % n);
        judge<N>(s, idx, construct, label.c_str());
    }
}
template <int N>
static void multisets(int nv, int style)
{
    Space<N> s(nv, style);
    int n = s.F.size();
    std::string label = mc::fmt("N=%d,V=%d,style=%d sets", N, nv, style);
    std::vector<int> idx;
    std::function<void(int)> go = [&](int from) {
        if ((int) idx.size() == N + 1) {
            judge<N>(s, idx, true, label.c_str());
            return;
        }
        for (int i = from; i < n; ++i) {
            idx.push_back(i);
            go(i);
            idx.pop_back();
        }
    };
    go(0);
}

int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C08");
    segments();
    for (int style = 0; style < 3; ++style) ordered<2>(style ? 4 : mc::pick(4, 5), style, true);
    ordered<2>(3, 0, true);
    for (int style = 0; style < mc::pick(2, 3); ++style) ordered<3>(4, style, true);
    multisets<3>(5, 0);
    if (mc::thorough()) {
        multisets<3>(5, 1);
        multisets<3>(5, 2);
        multisets<3>(6, 0);
    }
    return mc::finish();
}
