// Meshes of many cells: a line, a square and a cube cut into simplices, beyond what a segment of the
// storage holds and what indices of one or two digits count.
#pragma once
#include <array>
#include <map>
#include <set>
#include <vector>
namespace big {
    template <int N> using Cell = std::array<int, N + 1>;
    template <int N>
    struct Block {
        int n;                                   // cells along each side
        std::vector<std::array<double, 3>> points;
        std::vector<Cell<N>> cells;              // positively oriented
        explicit Block(int n) : n(n)
        {
            int m = n + 1;
            for (int k = 0; k < (N > 2 ? m : 1); ++k)
                for (int j = 0; j < (N > 1 ? m : 1); ++j)
                    for (int i = 0; i < m; ++i) points.push_back({ i * 1.0, j * 1.0, k * 1.0 });
            for (int k = 0; k < (N > 2 ? n : 1); ++k)
                for (int j = 0; j < (N > 1 ? n : 1); ++j)
                    for (int i = 0; i < n; ++i) {
                        int a = i + m * (j + m * k);
                        int step[3] = { 1, m, m * m };
                        int p[3] = { 0, 1, 2 };
                        // the simplices of the Kuhn triangulation, one for each order of the axes
                        do {
                            Cell<N> c;
                            c[0] = a;
                            int sign = 1;
                            for (int x = 0; x < N; ++x) {
                                c[x + 1] = c[x] + step[p[x]];
                                for (int y = 0; y < x; ++y)
                                    if (p[y] > p[x]) sign = -sign;
                            }
                            if (sign < 0) std::swap(c[0], c[1]);
                            cells.push_back(c);
                        } while (std::next_permutation(p, p + N));
                    }
        }
        // the cells with each set of corners of a face, signed
        static int sort(std::vector<int> & v)
        {
            int s = 1;
            for (size_t i = 0; i < v.size(); ++i)
                for (size_t j = i + 1; j < v.size(); ++j)
                    if (v[j] < v[i]) {
                        std::swap(v[i], v[j]);
                        s = -s;
                    }
            return s;
        }
        using Faces = std::map<std::vector<int>, std::array<int, 2>>;    // by orientation
        static void faces(const Cell<N> & c, int by, Faces & f)
        {
            for (int k = 0; k <= N; ++k) {
                std::vector<int> v;
                for (int i = 0; i <= N; ++i)
                    if (i != k) v.push_back(c[i]);
                int s = sort(v) * (k % 2 ? -1 : 1) * (N > 2 ? -1 : 1);    // in space, seen from inside
                auto & e = f[v];
                e[s < 0] += by;
                if (!e[0] && !e[1]) f.erase(v);
            }
        }
        // those that no cell has the other way
        static std::multiset<std::pair<std::vector<int>, int>> boundary(const Faces & f)
        {
            std::multiset<std::pair<std::vector<int>, int>> r;
            for (auto & [v, e] : f) {
                for (int i = 0; i < e[0] && !e[1]; ++i) r.insert({ v, 1 });
                for (int i = 0; i < e[1] && !e[0]; ++i) r.insert({ v, -1 });
            }
            return r;
        }
    };
}
