// Driver and reference model for the topology: a registry of simplices over a handful of vertices.
//
// The model names a simplex by its sorted vertex tuple and a sign (the parity of its vertex order
// with respect to the sorted tuple). It knows which simplices exist, which oriented components the
// footprint of each holds on to (those named when it was first built), and how many handles the
// client holds.
#pragma once
#include "mc.h"
#include <mito/topology.h>

namespace topo {
    using mito::topology::simplex_t;
    using mito::topology::vertex_t;
    using mito::topology::topology;

    struct Tuple {    // vertex indices
        signed char n = 0, d[4] = { 0, 0, 0, 0 };
        Tuple() {}
        explicit Tuple(size_t k) : n(k) {}
        Tuple(std::initializer_list<int> l)
        {
            for (int i : l) push_back(i);
        }
        size_t size() const { return n; }
        signed char & operator[](size_t i) { return d[i]; }
        const signed char & operator[](size_t i) const { return d[i]; }
        void push_back(int v) { if (n < 4) d[n] = v; ++n; }
        signed char * begin() { return d; }
        signed char * end() { return d + std::min<int>(n, 4); }
        const signed char * begin() const { return d; }
        const signed char * end() const { return d + std::min<int>(n, 4); }
        auto operator<=>(const Tuple &) const = default;
    };

    inline int parity(Tuple t)
    {
        int s = 1;
        for (size_t i = 0; i < t.size(); ++i)
            for (size_t j = i + 1; j < t.size(); ++j)
                if (t[i] > t[j]) s = -s;
        return s;
    }
    inline std::string str(const Tuple & t)
    {
        std::string r = "(";
        for (size_t i = 0; i < t.size(); ++i) r += (i ? " " : "") + std::to_string(t[i]);
        return r + ")";
    }

    // a simplex: sorted vertices and sign (for vertices: +-1)
    struct Name {
        Tuple v;
        int sign;
        auto operator<=>(const Name &) const = default;
        std::string str() const { return topo::str(v) + (sign > 0 ? "+" : "-"); }
        Name flipped() const { return { v, -sign }; }
    };
    inline Name name_of(Tuple t)
    {
        int s = parity(t);
        std::sort(t.begin(), t.end());
        return { t, s };
    }
    // the oriented boundary of the simplex with ordered vertices {t}
    // (segment: -first +last; triangle: the cycle; tetrahedron: the four faces as the tuple orders them)
    inline std::vector<Name> boundary(const Tuple & t)
    {
        switch (t.size()) {
            case 2: return { { { t[0] }, -1 }, { { t[1] }, +1 } };
            case 3: return { name_of({ t[0], t[1] }), name_of({ t[1], t[2] }), name_of({ t[2], t[0] }) };
            case 4:
                return { name_of({ t[0], t[1], t[2] }), name_of({ t[1], t[3], t[2] }),
                         name_of({ t[3], t[1], t[0] }), name_of({ t[3], t[0], t[2] }) };
        }
        return {};
    }
    // some ordered tuple with the given name
    inline Tuple tuple_of(const Name & n)
    {
        Tuple t = n.v;
        if (n.sign < 0) std::swap(t[0], t[1]);
        return t;
    }

    enum Focus { IDENTITY = 1, STRUCTURE = 2, EXISTENCE = 4, ERASURE = 8 };

    struct Held {
        Name name;
        int order;
        // exactly one is set
        std::shared_ptr<simplex_t<1>> s1;
        std::shared_ptr<simplex_t<2>> s2;
        std::shared_ptr<simplex_t<3>> s3;
        template <class F>
        auto with(F && f) const
        {
            if (order == 1) return f(*s1);
            if (order == 2) return f(*s2);
            return f(*s3);
        }
    };

    template <int N>
    inline Held hold(const simplex_t<N> & s, const Name & n)
    {
        Held h { n, N, {}, {}, {} };
        if constexpr (N == 1) h.s1 = std::make_shared<simplex_t<1>>(s);
        if constexpr (N == 2) h.s2 = std::make_shared<simplex_t<2>>(s);
        if constexpr (N == 3) h.s3 = std::make_shared<simplex_t<3>>(s);
        return h;
    }

    struct Op {
        char k;
        Tuple t;
        int a = 0;
    };

    struct World {
        int focus;
        std::vector<vertex_t> V;
        std::vector<Held> held;
        // the model
        std::set<Name> present;                        // oriented simplices, vertices included
        std::map<Tuple, std::vector<Name>> footprint;  // what each footprint (order > 0) holds on to
        std::map<Tuple, Tuple> first;                  // the vertex order each footprint was built with
        std::map<Name, uint64_t> id;                   // ids handed out for present simplices
        std::map<Tuple, uint64_t> fid;                 // ids of the footprints
        bool dropped = false;             // a simplex may be present without the client holding it
        bool reversed_rebuild = false;    // an existing footprint was rebuilt from other components
        int base[4] = { 0, 0, 0, 0 };     // simplices that were there before (prefill)
        std::vector<Op> menu_;
        std::function<void(World &)> make_menu;
        std::vector<Held> filler;

        World(int focus, int nv, int prefill) : focus(focus)
        {
            // unrelated simplices that occupy the head of the storage
            if (prefill > 0) {
                static std::vector<vertex_t> fv;
                for (int i = 0; i < prefill; ++i) fv.push_back(topology().vertex());
                for (int i = 0; i + 1 < prefill; ++i)
                    filler.push_back(hold<1>(topology().segment({ fv[i], fv[i + 1] }), {}));
                for (int i = 0; i + 2 < prefill; ++i)
                    filler.push_back(hold<2>(topology().triangle({ fv[i], fv[i + 1], fv[i + 2] }), {}));
            }
            for (int i = 0; i < nv; ++i) V.push_back(topology().vertex());
            count(base);
        }
        static void count(int * n)
        {
            n[0] = topology().n_simplices<0>();
            n[1] = topology().n_simplices<1>();
            n[2] = topology().n_simplices<2>();
            n[3] = topology().n_simplices<3>();
        }

        // ------------------------------------------------------------ model transitions
        // everything that building the simplex with ordered vertices {t} brings about
        void model_build(const Tuple & t)
        {
            Name n = name_of(t);
            if (t.size() == 1) return;
            auto b = boundary(t);
            if (t.size() == 2) {
                for (auto & x : b) present.insert(x);
            } else if (t.size() == 3) {
                model_build({ t[0], t[1] });
                model_build({ t[1], t[2] });
                model_build({ t[2], t[0] });
            } else {
                model_build({ t[0], t[1], t[2] });
                model_build({ t[1], t[3], t[2] });
                model_build({ t[3], t[1], t[0] });
                model_build({ t[3], t[0], t[2] });
            }
            model_adopt(n, b, t);
        }
        void model_adopt(const Name & n, const std::vector<Name> & b, const Tuple & t)
        {
            auto it = footprint.find(n.v);
            if (it == footprint.end()) {
                footprint[n.v] = b;
                first[n.v] = t;
            } else {
                auto x = it->second, y = b;
                std::sort(x.begin(), x.end());
                std::sort(y.begin(), y.end());
                if (x != y) reversed_rebuild = true;
            }
            present.insert(n);
        }
        int client_refs(const Name & n) const
        {
            return std::count_if(held.begin(), held.end(), [&](auto & h) { return h.name == n; });
        }
        int refs(const Name & n) const
        {
            int r = client_refs(n);
            for (auto & [v, c] : footprint) r += std::count(c.begin(), c.end(), n);
            return r;
        }
        // what is left once nobody uses {n} any more
        void model_collect(const Name & n)
        {
            if (refs(n) > 0 || !present.count(n)) return;
            present.erase(n);
            id.erase(n);
            if (n.v.size() == 1 || present.count(n.flipped())) return;
            auto c = footprint[n.v];
            footprint.erase(n.v);
            first.erase(n.v);
            fid.erase(n.v);
            for (auto & x : c) model_collect(x);
        }

        // ------------------------------------------------------------ real transitions
        template <int N>
        simplex_t<N> build_real(const Tuple & t)
        {
            mito::topology::vertex_simplex_composition_t<N> a;
            for (int i = 0; i <= N; ++i) a[i] = V[t[i]];
            // (there are several ways to say the same)
            if (t[0] % 3 == 1) return topology().template simplex<N>(a);
            if (t[0] % 3 == 2) {
                if constexpr (N == 1) return mito::topology::segment(a);
                if constexpr (N == 2) return mito::topology::triangle(a);
                if constexpr (N == 3) return mito::topology::tetrahedron(a);
            }
            if constexpr (N == 1) return topology().segment(a);
            if constexpr (N == 2) return topology().triangle(a);
            if constexpr (N == 3) return topology().tetrahedron(a);
        }
        template <int N>
        simplex_t<N> build_pieces(const Tuple & t, int rot)
        {
            // from components that are themselves obtained from vertices
            if constexpr (N == 1) {
                mito::topology::simplex_composition_t<1> c;
                c[0] = topology().template simplex<0>(V[t[0]], -1);
                c[1] = topology().template simplex<0>(V[t[1]], +1);
                return topology().segment(c);
            }
            if constexpr (N == 2) {
                std::array<simplex_t<1>, 3> e = { topology().segment({ V[t[0]], V[t[1]] }),
                                                  topology().segment({ V[t[1]], V[t[2]] }),
                                                  topology().segment({ V[t[2]], V[t[0]] }) };
                mito::topology::simplex_composition_t<2> c;
                for (int i = 0; i < 3; ++i) c[i] = e[(i + rot) % 3];
                if (rot % 3 == 1) return topology().template simplex<2>(c);
                if (rot % 3 == 2) return mito::topology::triangle(c);
                return topology().triangle(c);
            }
            if constexpr (N == 3) {
                std::array<simplex_t<2>, 4> e = {
                    topology().triangle({ V[t[0]], V[t[1]], V[t[2]] }),
                    topology().triangle({ V[t[1]], V[t[3]], V[t[2]] }),
                    topology().triangle({ V[t[3]], V[t[1]], V[t[0]] }),
                    topology().triangle({ V[t[3]], V[t[0]], V[t[2]] })
                };
                // the even permutations of the four faces
                static const int even[12][4] = { { 0, 1, 2, 3 }, { 0, 2, 3, 1 }, { 0, 3, 1, 2 },
                                                 { 1, 0, 3, 2 }, { 1, 2, 0, 3 }, { 1, 3, 2, 0 },
                                                 { 2, 0, 1, 3 }, { 2, 1, 3, 0 }, { 2, 3, 0, 1 },
                                                 { 3, 0, 2, 1 }, { 3, 1, 0, 2 }, { 3, 2, 1, 0 } };
                mito::topology::simplex_composition_t<3> c;
                for (int i = 0; i < 4; ++i) c[i] = e[even[rot % 12][i]];
                if (rot % 3 == 1) return topology().template simplex<3>(c);
                if (rot % 3 == 2) return mito::topology::tetrahedron(c);
                return topology().tetrahedron(c);
            }
        }
        template <int N>
        void note(const simplex_t<N> & s, const Name & n, const char * how)
        {
            // the identity of what was handed out
            mc::require(!s.is_nullptr(), "null", "%s gave a null handle for %s", how, n.str().c_str());
            uint64_t i = s.id(), f = s->footprint().id();
            if (focus & IDENTITY) {
                auto it = id.find(n);
                if (it != id.end())
                    mc::require(it->second == i, "identity", "%s gave another object for %s", how,
                                n.str().c_str());
                else
                    for (auto & [m, j] : id)
                        mc::require(m.v.size() != n.v.size() || j != i, "identity",
                                    "%s gave for %s the object of %s", how, n.str().c_str(),
                                    m.str().c_str());
                auto jt = fid.find(n.v);
                if (jt != fid.end())
                    mc::require(jt->second == f, "footprint", "%s: %s does not ride on the footprint "
                                "of its vertices", how, n.str().c_str());
                else
                    for (auto & [m, j] : fid)
                        mc::require(m.size() != n.v.size() || j != f, "footprint",
                                    "%s: %s shares a footprint with %s", how, n.str().c_str(),
                                    str(m).c_str());
            }
            id[n] = i;
            fid[n.v] = f;
        }
        template <int N>
        void op_build(const Op & o, bool keep)
        {
            Name n = name_of(o.t);
            auto s = (o.k == 'p') ? build_pieces<N>(o.t, o.a) : build_real<N>(o.t);
            model_build(o.t);
            note<N>(s, n, "building");
            if (keep) held.push_back(hold<N>(s, n));
        }
        template <int N>
        void op_flip(const Held & h, const simplex_t<N> & s)
        {
            auto n = h.name.flipped();
            auto f = o_free ? mito::topology::flip(s) : topology().flip(s);
            present.insert(n);
            note<N>(f, n, "flipping");
            held.push_back(hold<N>(f, n));
        }
        bool o_free = false;

        int enabled()
        {
            menu_.clear();
            make_menu(*this);
            return menu_.size();
        }
        std::string name(int c)
        {
            if (menu_.empty()) enabled();
            auto & o = menu_[c];
            std::string h = (o.k == 'f' || o.k == 'd' || o.k == 'e') && o.a < (int) held.size()
                              ? held[o.a].name.str() : "";
            switch (o.k) {
                case 'b': return "build " + str(o.t);
                case 'B': return "build and drop " + str(o.t);
                case 'p': return "build from its boundary " + str(o.t) + " rotated by " + std::to_string(o.a);
                case 'f': return "flip " + h;
                case 'd': return "drop " + h;
                case 'e': return "erase " + h;
            }
            return "?";
        }
        void apply(int c)
        {
            Op o = menu_[c];
            switch (o.k) {
                case 'b':
                case 'B':
                case 'p':
                    if (o.k == 'B') dropped = true;
                    if (o.t.size() == 2) op_build<1>(o, o.k != 'B');
                    if (o.t.size() == 3) op_build<2>(o, o.k != 'B');
                    if (o.t.size() == 4) op_build<3>(o, o.k != 'B');
                    break;
                case 'f': {
                    auto h = held[o.a];
                    o_free = (o.a + held.size()) % 2;
                    if (h.order == 1) op_flip<1>(h, *h.s1);
                    if (h.order == 2) op_flip<2>(h, *h.s2);
                    if (h.order == 3) op_flip<3>(h, *h.s3);
                    break;
                }
                case 'd': dropped = true; held.erase(held.begin() + o.a); break;
                case 'e': {
                    // erase through a handle, then let go of the handle
                    Held h = held[o.a];
                    held.erase(held.begin() + o.a);
                    bool last = refs(h.name) == 0;
                    auto go = [&](auto & s) {
                        topology().erase(s);
                        if (focus & ERASURE)
                            mc::require(s.is_nullptr() == last, "erase-handle", "erasing %s (in use "
                                        "elsewhere: %d) left the handle %s", h.name.str().c_str(),
                                        (int) !last, s.is_nullptr() ? "null" : "set");
                        // erasing through the emptied handle again does nothing
                        if (last) topology().erase(s);
                    };
                    if (h.order == 1) go(*h.s1);
                    if (h.order == 2) go(*h.s2);
                    if (h.order == 3) go(*h.s3);
                    if (last) model_collect(h.name);
                    break;
                }
            }
        }

        // ------------------------------------------------------------ oracle
        int model_count(int order) const
        {
            return std::count_if(present.begin(), present.end(),
                                 [&](auto & n) { return (int) n.v.size() == order + 1; });
        }
        int index_of(const vertex_t & v) const
        {
            for (size_t i = 0; i < V.size(); ++i)
                if (V[i] == v) return i;
            return -1;
        }
        template <int N>
        Tuple real_vertices(const simplex_t<N> & s) const
        {
            Tuple t;
            for (auto & v : s->vertices()) t.push_back(index_of(v));
            return t;
        }
        template <int N>
        Name real_name(const simplex_t<N> & s) const
        {
            if constexpr (N == 0) return { { index_of(s->footprint()) }, s->orientation() };
            else return name_of(real_vertices<N>(s));
        }
        template <int N>
        void check_held(const Held & h, const simplex_t<N> & s)
        {
            auto hn = h.name.str();
            const char * nm = hn.c_str();
            if (focus & IDENTITY) {
                mc::require(s.id() == id[h.name], "identity", "the handle of %s changed", nm);
                mc::require(real_name<N>(s) == h.name, "vertices", "%s reports vertices %s", nm,
                            str(real_vertices<N>(s)).c_str());
                mc::require(s->footprint().id() == fid[h.name.v], "footprint", "footprint of %s", nm);
                for (auto & g : held)
                    if (g.order == N) {
                        bool same = g.with([&](auto & x) { return (uint64_t) x.id() == (uint64_t) s.id(); });
                        mc::require(same == (g.name == h.name), "identity", "%s and %s are %s object",
                                    nm, g.name.str().c_str(), same ? "the same" : "a different");
                        int fa = s->orientation(), fb = g.with([](auto & x) { return (int) x->orientation(); });
                        bool fsame = g.with([&](auto & x) {
                            return (uint64_t) x->footprint().id() == (uint64_t) s->footprint().id();
                        });
                        mc::require(fsame == (g.name.v == h.name.v), "footprint",
                                    "%s and %s: footprints %s", nm, g.name.str().c_str(),
                                    fsame ? "coincide" : "differ");
                        if (fsame)
                            mc::require((fa == fb) == (g.name.sign == h.name.sign), "orientation",
                                        "%s has orientation %d, %s has %d", nm, fa,
                                        g.name.str().c_str(), fb);
                    }
            }
            if (focus & STRUCTURE) {
                auto t = real_vertices<N>(s);
                mc::require(name_of(t) == h.name, "vertices", "%s reports vertices %s", nm, str(t).c_str());
                mc::require(s->orientation() == 1 || s->orientation() == -1, "orientation",
                            "%s has orientation %d", nm, (int) s->orientation());
                mc::require(s->sanityCheck(), "sanity", "%s fails its sanity check", nm);
                std::set<vertex_t> vs;
                s->vertices(vs);
                mc::require((int) vs.size() == N + 1, "vertices", "%s has %zu distinct vertices", nm,
                            vs.size());
                for (int v : h.name.v)
                    mc::require(vs.count(V[v]), "vertices", "%s lacks vertex %d", nm, v);
                auto comp = s->composition();
                // the ends of a segment, gathered into a collection
                if constexpr (N == 1) {
                    std::vector<vertex_t> ends;
                    for (int twice = 0; twice < 2; ++twice)
                        for (auto & x : comp) x->vertices(ends);
                    mc::require(ends.size() == 2 && ends[0] == comp[0]->footprint() && ends[1] == comp[1]->footprint(), "vertices",
                                "the ends of %s give %zu vertices", nm, ends.size());
                }
                // the composition bounds the simplex: with the orientation of the simplex as sign,
                // it is the oriented boundary of its vertex tuple
                auto bt = boundary(t);
                std::multiset<Name> B(bt.begin(), bt.end()), R;
                for (auto & x : comp) {
                    auto n = real_name<N - 1>(x);
                    R.insert(s->orientation() > 0 ? n : n.flipped());
                }
                mc::require(R == B, "boundary", "the oriented boundary of %s is not that of its "
                            "vertices %s", nm, str(t).c_str());
                // the boundary has no boundary
                if constexpr (N > 1) {
                    std::map<uint64_t, int> net, times;
                    for (auto & x : comp)
                        for (auto & y : x->composition()) {
                            net[y->footprint().id()] += x->orientation() * y->orientation();
                            ++times[y->footprint().id()];
                        }
                    mc::require((int) net.size() == N * (N + 1) / 2, "boundary",
                                "the boundary of %s has %zu ridges", nm, net.size());
                    for (auto & [k, v] : net)
                        mc::require(v == 0 && times[k] == 2, "boundary", "the boundary of %s has a "
                                    "boundary", nm);
                }
                if constexpr (N == 1) {
                    mc::require(index_of(mito::topology::tail(s)) == t[0]
                                    && index_of(mito::topology::head(s)) == t[1],
                                "head-tail", "segment %s: tail %d, head %d", nm,
                                index_of(mito::topology::tail(s)), index_of(mito::topology::head(s)));
                    for (auto & g : held)
                        if (g.order == 1) {
                            auto u = real_vertices<1>(*g.s1);
                            mc::require(mito::topology::headTailConnected(s, *g.s1) == (t[1] == u[0]),
                                        "head-tail", "%s and %s: connection", nm, g.name.str().c_str());
                        }
                }
                if constexpr (N == 3 || N == 2) {
                    std::set<simplex_t<1>> es;
                    s->edges(es);
                    std::set<Tuple> ee;
                    for (auto & e : es) ee.insert(real_name<1>(e).v);
                    std::set<Tuple> we;
                    for (int i : h.name.v)
                        for (int j : h.name.v)
                            if (i < j) we.insert({ i, j });
                    mc::require(ee == we, "edges", "%s lists %zu distinct edges", nm, ee.size());
                }
                mc::require(mito::topology::isValid<N>(comp), "validity", "the composition of %s is "
                            "said to be invalid", nm);
            }
            if (focus & (IDENTITY | STRUCTURE)) {
                // the simplex is recovered from its own boundary, listed in any even order
                auto comp = s->composition();
                mc::require(topology().template simplex<N>(comp) == s, "recovered", "%s is not "
                            "recovered from its own boundary", nm);
                if constexpr (N > 1) {
                    std::rotate(comp.begin(), comp.begin() + 1, comp.begin() + 3);
                    mc::require(topology().template simplex<N>(comp) == s, "recovered", "%s is not "
                                "recovered from its own boundary in another even order", nm);
                }
            }
            if (focus & (EXISTENCE | ERASURE)) {
                bool f = topology().exists_flipped(s);
                mc::require(f == (bool) present.count(h.name.flipped()), "exists-flipped",
                            "exists_flipped(%s) says %d", nm, (int) f);
                auto comp = s->composition();
                mc::require(topology().template exists<N>(comp), "exists",
                            "%s is held but does not exist", nm);
                if (N > 1) {
                    // an odd order of the same boundary is that of the flip
                    std::swap(comp[0], comp[1]);
                    mc::require(topology().template exists<N>(comp) == f, "exists",
                                "the boundary of %s in odd order: existence", nm);
                }
                {
                    // whoever else looks at the footprint makes no difference
                    auto footprint = s->footprint(), again = footprint;
                    mc::require(topology().exists_flipped(s) == f, "exists-flipped",
                                "exists_flipped(%s) says %d when its footprint is in use", nm, (int) !f);
                }
                if constexpr (N == 1) {
                    for (auto & x : s->composition()) {
                        Name n { { index_of(x->footprint()) }, (int) x->orientation() };
                        mc::require(topology().exists_flipped(x) == (bool) present.count(n.flipped()),
                                    "exists-flipped", "exists_flipped(oriented vertex %s)", n.str().c_str());
                    }
                }
            }
        }
        void check()
        {
            menu_.clear();
            int n[4];
            auto counts = [&](const char * when) {
                count(n);
                for (int o = 0; o < 4; ++o)
                    mc::require(n[o] - base[o] == model_count(o), "count", "%d simplices of order %d "
                                "are present%s, %d expected", n[o] - base[o], o, when, model_count(o));
            };
            if (focus & (EXISTENCE | ERASURE)) counts("");
            for (auto & h : held) {
                if (h.order == 1) check_held<1>(h, *h.s1);
                if (h.order == 2) check_held<2>(h, *h.s2);
                if (h.order == 3) check_held<3>(h, *h.s3);
            }
            if (focus & (EXISTENCE | ERASURE)) {
                for (int i = 0; i < (int) V.size(); ++i)
                    for (int j = 0; j < (int) V.size(); ++j)
                        if (i != j) {
                            bool e = topology().exists({ V[i], V[j] });
                            bool want = present.count(name_of({ i, j }));
                            mc::require(e == want, "exists", "exists(%d,%d) says %d, should be %d", i,
                                        j, (int) e, (int) want);
                        }
                counts(" after asking");
                for (auto & h : filler) h.with([&](auto & s) {
                    mc::require(s.references() >= 1 && s->sanityCheck(), "bystander",
                                "an unrelated simplex is damaged");
                    return 0;
                });
            }
            if (focus & ERASURE) {
                // survivors keep their structure
                for (auto & h : held) h.with([&](auto & s) {
                    mc::require(s->sanityCheck(), "survivor", "%s fails its sanity check",
                                h.name.str().c_str());
                    Tuple t;
                    for (auto & v : s->vertices()) t.push_back(index_of(v));
                    mc::require(name_of(t) == h.name, "survivor", "%s now has vertices %s",
                                h.name.str().c_str(), str(t).c_str());
                    return 0;
                });
            }
        }
        void finish()
        {
            if (!(focus & ERASURE)) return;
            // erase all that is held, last first: nothing that was reachable only from it remains
            while (!held.empty()) {
                auto h = held.back();
                held.pop_back();
                bool last = refs(h.name) == 0;
                auto go = [&](auto & s) { topology().erase(s); };
                if (h.order == 1) go(*h.s1);
                if (h.order == 2) go(*h.s2);
                if (h.order == 3) go(*h.s3);
                if (last) model_collect(h.name);
            }
            check();
            // whatever was built was erased again: nothing may be left over
            if (!dropped) {
                int n[4];
                count(n);
                for (int o = 0; o < 4; ++o)
                    mc::require(n[o] == base[o],
                                reversed_rebuild ? "orphans-of-reversed-rebuild" : "garbage",
                                "everything was erased, but %d simplices of order %d remain",
                                n[o] - base[o], o);
            }
        }
        uint64_t hash()
        {
            uint64_t x = focus;
            for (auto & n : present) {
                for (int v : n.v) x = mc::mix(x, v + 1);
                x = mc::mix(x, n.sign + 50 + 100 * client_refs(n));
            }
            for (auto & [v, t] : first)
                for (int i : t) x = mc::mix(x, i + 1000);
            return x;
        }
    };

    // ---------------------------------------------------------------- menus
    inline std::vector<Tuple> tuples(int nv, int k, bool all_orders)
    {
        std::vector<Tuple> r;
        Tuple t { };
        t.n = k;
        std::function<void(int)> go = [&](int i) {
            if (i == k) {
                if (!all_orders) {
                    // both orientations of every vertex set, once each
                    Tuple s = t;
                    std::sort(s.begin(), s.end());
                    Tuple u = s;
                    std::swap(u[0], u[1]);
                    if (t != s && t != u) return;
                }
                r.push_back(t);
                return;
            }
            for (int v = 0; v < nv; ++v)
                if (std::find(t.begin(), t.begin() + i, v) == t.begin() + i) {
                    t[i] = v;
                    go(i + 1);
                }
        };
        go(0);
        return r;
    }
    struct Alphabet {
        int nv;
        bool seg = false, tri = false, tet = false;
        bool all_orders = false;
        bool dropping_builds = false;
        int pieces = 0;    // how many rotations to offer when building from the boundary
        bool flips = true, drops = true, erases = true;
        int max_held = 4;
    };
    inline std::function<void(World &)> menu(Alphabet a)
    {
        std::vector<Op> builds;
        auto add = [&](int k) {
            for (auto & t : tuples(a.nv, k, a.all_orders)) {
                builds.push_back({ 'b', t });
                if (a.dropping_builds) builds.push_back({ 'B', t });
                for (int r = 0; r < std::min(a.pieces, k == 2 ? 1 : k == 3 ? 3 : 12); ++r)
                    builds.push_back({ 'p', t, r });
            }
        };
        if (a.seg) add(2);
        if (a.tri) add(3);
        if (a.tet) add(4);
        return [=](World & w) {
            if ((int) w.held.size() < a.max_held) w.menu_ = builds;
            std::set<Name> seen;
            for (int i = 0; i < (int) w.held.size(); ++i) {
                // handles of the same simplex are interchangeable
                if (!seen.insert(w.held[i].name).second) continue;
                if (a.flips && (int) w.held.size() < a.max_held) w.menu_.push_back({ 'f', {}, i });
                if (a.drops) w.menu_.push_back({ 'd', {}, i });
                if (a.erases) w.menu_.push_back({ 'e', {}, i });
            }
        };
    }
    // every history in a process of its own, from an empty registry (or one with {prefill} simplices)
    inline void run_forked(const std::string & label, int focus, Alphabet a, int depth, int prefill = 0)
    {
        mc::fork_explore(label, depth, [=] {
            World w(focus, a.nv, prefill);
            w.make_menu = menu(a);
            return w;
        });
    }
    // all histories one after the other in one process, on vertices of their own: the registry
    // holds whatever the previous histories left behind
    inline void run(const std::string & label, int focus, Alphabet a, int depth)
    {
        mc::isolated(label, [&] {
            mc::explore(label, depth, [=] {
                World w(focus, a.nv, 0);
                w.make_menu = menu(a);
                return w;
            });
        });
    }
}
