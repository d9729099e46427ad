// C10: signs of permutations. All permutations against all reference orders.
#include "mc.h"
#include <mito/math.h>
#include <deque>
#include <numeric>

template <class C>
static int parity(const C & data, const C & ref)
{
    int n = data.size(), s = 1;
    std::vector<int> pos;
    for (auto & x : data) pos.push_back(std::find(ref.begin(), ref.end(), x) - ref.begin());
    for (int i = 0; i < n; ++i)
        for (int j = i + 1; j < n; ++j)
            if (pos[i] > pos[j]) s = -s;
    return s;
}
template <class C>
static std::string str(const C & c)
{
    std::string r;
    for (auto & x : c) r += std::to_string((long) x) + " ";
    return r;
}
template <class C>
static void one(const C & data, const C & ref)
{
    C d0 = data, r0 = ref;
    mc::evaluation(data != ref, mc::mix(mc::hash_str(str(data)), mc::hash_str(str(ref))));
    int got = mito::math::permutation_sign(data, ref), want = parity(data, ref);
    mc::require(got == want, "sign", "the sign of %s with respect to %s is %d", str(data).c_str(), str(ref).c_str(), got);
    int back = mito::math::permutation_sign(ref, data);
    mc::require(back == want, "inverse", "the inverse of %s (%s) has sign %d", str(data).c_str(), str(ref).c_str(), back);
    mc::require(mito::math::same_elements(data, ref), "same", "%s and %s are said to have different elements", str(data).c_str(), str(ref).c_str());
    mc::require(data == d0 && ref == r0, "modified", "the arguments are modified");
    // swapping two entries flips the sign
    for (size_t i = 0; i < data.size(); ++i)
        for (size_t j = i + 1; j < data.size(); ++j) {
            C x = data;
            std::swap(x[i], x[j]);
            mc::require(mito::math::permutation_sign(x, ref) == -want, "transposition", "swapping entries %zu and %zu of %s does not flip its sign", i, j, str(data).c_str());
        }
}
template <class T, size_t N>
static void all(const char * label, std::array<T, N> values, bool all_refs)
{
    std::array<int, N> rp;
    for (size_t i = 0; i < N; ++i) rp[i] = i;
    do {
        std::array<T, N> ref;
        for (size_t i = 0; i < N; ++i) ref[i] = values[rp[i]];
        mc::for_case(mc::fmt("%s n=%zu reference %s", label, N, str(ref).c_str()), [&] {
            std::array<int, N> p;
            for (size_t i = 0; i < N; ++i) p[i] = i;
            do {
                std::array<T, N> data;
                for (size_t i = 0; i < N; ++i) data[i] = values[p[i]];
                one(data, ref);
                if (N <= 4) {
                    one(std::vector<T>(data.begin(), data.end()), std::vector<T>(ref.begin(), ref.end()));
                    one(std::deque<T>(data.begin(), data.end()), std::deque<T>(ref.begin(), ref.end()));
                }
            } while (std::next_permutation(p.begin(), p.end()));
        });
        if (!all_refs) break;
    } while (std::next_permutation(rp.begin(), rp.end()));
}
// same_elements is multiset equality
template <size_t N>
static void multisets(int k)
{
    long total = 1;
    for (size_t i = 0; i < N; ++i) total *= k;
    for (long a = 0; a < total; ++a)
        mc::for_case(mc::fmt("same elements n=%zu %ld", N, a), [&] {
            for (long b = 0; b < total; ++b) {
                std::array<int, N> x, y;
                long p = a, q = b;
                for (size_t i = 0; i < N; ++i, p /= k, q /= k) x[i] = p % k, y[i] = q % k;
                mc::evaluation(a != b, mc::mix(a * 1000003 + b, N));
                bool want = std::multiset<int>(x.begin(), x.end()) == std::multiset<int>(y.begin(), y.end());
                mc::require(mito::math::same_elements(x, y) == want, "same", "%s and %s: %d", str(x).c_str(), str(y).c_str(), !want);
                mc::require(mito::math::same_elements(std::vector<int>(x.begin(), x.end()), std::vector<int>(y.begin(), y.end())) == want,
                            "same", "vectors %s and %s: %d", str(x).c_str(), str(y).c_str(), !want);
            }
        });
}
// sequences of different lengths
static void lengths(int max, int k)
{
    std::vector<std::vector<int>> all { {} };
    for (size_t i = 0; i < all.size(); ++i)
        if ((int) all[i].size() < max)
            for (int v = 0; v < k; ++v) {
                auto x = all[i];
                x.push_back(v);
                all.push_back(x);
            }
    for (size_t i = 0; i < all.size(); ++i)
        mc::for_case("same elements, any length: " + str(all[i]), [&] {
            for (auto & y : all) {
                auto & x = all[i];
                mc::evaluation(x.size() != y.size(), mc::mix(mc::hash_str(str(x)), mc::hash_str(str(y) + "L")));
                bool want = std::multiset<int>(x.begin(), x.end()) == std::multiset<int>(y.begin(), y.end());
                mc::require(mito::math::same_elements(x, y) == want, "same", "{%s} and {%s}: %d", str(x).c_str(), str(y).c_str(), !want);
            }
        });
}
// long sequences: rotations, reversals, transpositions, strides and what these make of each other
static void longer(int n)
{
    mc::for_case(mc::fmt("sequences of %d", n), [&] {
        std::vector<std::vector<int>> perms;
        auto make = [&](auto f) {
            std::vector<int> p(n);
            for (int i = 0; i < n; ++i) p[i] = f(i);
            perms.push_back(p);
        };
        int few = n <= 16 ? 1 : std::max(1, n / 7);
        for (int k = 0; k < n; k += few) make([&](int i) { return (i + k) % n; });
        for (int k = 0; k <= n; k += few) make([&](int i) { return i < k ? k - 1 - i : i; });
        for (int k = 0; k < n; k += few)
            for (int l = k + 1; l < n; l += few) make([&](int i) { return i == k ? l : i == l ? k : i; });
        for (int k = 2; k < n && k < 12; ++k)
            if (std::gcd(k, n) == 1) make([&](int i) { return i * k % n; });
        std::vector<int> id(n);
        std::iota(id.begin(), id.end(), 0);
        auto sign = [](const std::vector<int> & p) {
            std::vector<bool> seen(p.size());
            int s = 1;
            for (size_t i = 0; i < p.size(); ++i)
                for (size_t j = i, len = 0; !seen[j]; j = p[j], ++len) {
                    seen[j] = true;
                    if (len) s = -s;
                }
            return s;
        };
        std::vector<int> signs;
        for (auto & p : perms) signs.push_back(sign(p));
        for (size_t a = 0; a < perms.size(); ++a)
            for (size_t b = 0; b < perms.size(); b += (n <= 16 ? 1 : 5)) {
                mc::evaluation(a != b, mc::mix(mc::mix(n, a), b));
                int want = signs[a] * signs[b], got = mito::math::permutation_sign(perms[a], perms[b]);
                mc::require(got == want, "sign", "the sign of %s with respect to %s is %d", str(perms[a]).c_str(), str(perms[b]).c_str(), got);
                auto wrong = perms[b];
                mc::require(mito::math::same_elements(perms[a], wrong), "same", "%s and %s are said to have different elements", str(perms[a]).c_str(), str(wrong).c_str());
                wrong[(a + b) % n] = n;
                mc::require(!mito::math::same_elements(perms[a], wrong), "same", "%s and %s are said to have the same elements", str(perms[a]).c_str(), str(wrong).c_str());
            }
    });
}
int main(int argc, char ** argv)
{
    mc::init(argc, argv, "C10");
    all<int, 1>("int", { 5 }, true);
    all<int, 2>("int", { 3, -7 }, true);
    all<int, 3>("int", { 10, -2, 7 }, true);
    all<int, 4>("int", { 4, 9, -1, 0 }, true);
    all<int, 5>("int", { 0, 1, 2, 3, 4 }, true);
    all<int, 6>("int", { 11, 5, -3, 8, 2, 0 }, true);
    all<int, 7>("int", { 6, 5, 4, 3, 2, 1, 0 }, mc::thorough());
    if (mc::thorough()) all<int, 8>("int", { 0, 10, 20, 30, 5, 15, 25, 35 }, false);
    all<double, 4>("double", { 0.5, -0.0, 1e300, -1e-300 }, true);
    all<unsigned char, 4>("uchar", { 255, 0, 128, 1 }, true);
    all<uint64_t, 4>("u64", { ~0ull, 0, 1ull << 63, 1ull << 32 }, true);
    for (int n = 7; n <= 16; ++n) longer(n);
    for (int n : { 17, 20, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300, mc::pick(520, 1030) }) longer(n);
    lengths(mc::pick(4, 5), 3);
    multisets<1>(3), multisets<2>(3), multisets<3>(3), multisets<4>(mc::pick(3, 4)), multisets<5>(mc::pick(2, 3));
    return mc::finish();
}
