#include "vm.hpp"

#include <fiction/technology/constants.hpp>
#include <fiction/utils/array_utils.hpp>
#include <fiction/utils/execution_utils.hpp>
#include <fiction/utils/hash.hpp>
#include <fiction/utils/map_utils.hpp>
#include <fiction/utils/stl_utils.hpp>
#include <fiction/layouts/coordinates.hpp>

#include <algorithm>
#include <array>
#include <cmath>
#include <ctime>
#include <atomic>
#include <thread>
#include <deque>
#include <functional>
#include <map>
#include <numeric>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>

using namespace fiction;

// ---- find_first_two_of
VM_SUITE(common_subsequence, 20000, 300000)
{
    const auto gen = [&] { std::vector<int> v(r.below(9)); for (auto& x : v) x = static_cast<int>(r.below(4)); return v; };
    const auto a = gen(), b = gen();
    std::size_t want = a.size();
    for (std::size_t i = 0; i + 1 < a.size() && want == a.size(); ++i)
        for (std::size_t j = 0; j + 1 < b.size(); ++j)
            if (a[i] == b[j] && a[i + 1] == b[j + 1]) { want = i; break; }
    const auto it = find_first_two_of(a.begin(), a.end(), b.begin(), b.end());
    vm::require(it - a.begin() == static_cast<std::ptrdiff_t>(want), "subsequence:first", [&] { return vm::list(a) + vm::list(b) + vm::cat(" gives ", it - a.begin(), " instead of ", want); });
    if (want < a.size()) vm::count("shared pairs found");
    const std::deque<int> q(a.begin(), a.end());
    const auto            iq = find_first_two_of(q.begin(), q.end(), b.begin(), b.end());
    vm::require(iq - q.begin() == static_cast<std::ptrdiff_t>(want), "subsequence:deque", [&] { return vm::list(a) + vm::list(b); });
    vm::distinct(vm::list(a) + vm::list(b));
}
// ---- searchable_priority_queue against a multiset
namespace
{
struct item { int key; int id; bool operator==(const item&) const = default; };
struct by_key { bool operator()(const item& a, const item& b) const { return a.key > b.key; } };
}  // namespace
VM_SUITE(priority_queue, 1500, 30000)
{
    searchable_priority_queue<int>                                      q;
    searchable_priority_queue<item, std::vector<item>, by_key>          p;
    std::multiset<int>                                                  m;
    std::vector<item>                                                   l;
    int                                                                 id = 0;
    const auto none = [&](const char* when)
    {
        const auto& cq = q;
        const auto& cp = p;
        vm::require(!q.contains(3) && q.find(3) == q.end() && cq.find(3) == cq.cend() && q.begin() == q.end() && !cp.contains({1, 1}) && cp.begin() == cp.end(), "queue:empty-contains-nothing", when);
    };
    none("new queue");
    for (int i = 0; i < 60; ++i)
    {
        const int v = static_cast<int>(r.below(12));
        if (r.chance(60) || m.empty())
        {
            q.push(v);
            m.insert(v);
            p.push({v, ++id});
            l.push_back({v, id});
        }
        else
        {
            vm::require(q.top() == *m.rbegin(), "queue:top", [&] { return vm::cat(q.top(), " instead of ", *m.rbegin()); });
            q.pop();
            m.erase(std::prev(m.end()));
            const auto t    = p.top();
            const auto best = std::min_element(l.begin(), l.end(), [](const item& a, const item& b) { return a.key < b.key; })->key;
            vm::require(t.key == best, "queue:custom-top", vm::cat(t.key));
            const auto at = std::find(l.begin(), l.end(), t);
            if (vm::require(at != l.end(), "queue:invented-element", vm::cat(t.key))) l.erase(at);
            p.pop();
        }
        vm::require(q.size() == m.size() && p.size() == l.size() && q.empty() == m.empty(), "queue:size", vm::cat(q.size()));
        const int  w    = static_cast<int>(r.below(14));
        const bool want = m.count(w) > 0;
        const auto& cq  = q;
        vm::require(q.contains(w) == want && (q.find(w) != q.end()) == want && (cq.find(w) != cq.cend()) == want, "queue:contains", [&] { return vm::cat(w, " should be ", want); });
        if (want) vm::require(*q.find(w) == w && *cq.find(w) == w, "queue:find", vm::cat(w));
        if (!l.empty())
        {
            const auto x = l[r.below(l.size())];
            vm::require(p.contains(x) && !p.contains({x.key, -1}), "queue:contains-uses-equality", vm::cat(x.key));
        }
        vm::require(std::multiset<int>(q.begin(), q.end()) == m && std::multiset<int>(cq.cbegin(), cq.cend()) == m, "queue:contents", vm::cat(i));
        vm::count("queue operations");
        if (m.empty()) none("emptied queue");
    }
    while (!q.empty()) { q.pop(); p.pop(); }
    none("drained queue");
    vm::distinct(r.s);
}
// ---- arrays
VM_SUITE(arrays, 2000, 40000)
{
    const int  v = static_cast<int>(r.range(-1000, 1000));
    const auto a = create_array<7>(v);
    static_assert(std::is_same_v<decltype(a), const std::array<int, 7>>);
    for (const auto x : a) vm::require(x == v, "array:create", vm::cat(v));
    const auto st = create_array<3>(std::string{"x"} + std::to_string(v));
    for (const auto& x : st) vm::require(x == "x" + std::to_string(v), "array:create-string", vm::cat(v));
    static_assert(create_array<0>(1).empty());
    std::array<int, 6> s{};
    for (auto& x : s) x = static_cast<int>(r.range(-70000, 70000));
    const auto c8 = convert_array<int8_t>(s);
    const auto cd = convert_array<double>(s);
    for (std::size_t i = 0; i < s.size(); ++i) vm::require(c8[i] == static_cast<int8_t>(s[i]) && cd[i] == static_cast<double>(s[i]), "array:convert", [&] { return vm::list(s); });
    std::array<std::array<int, 4>, 3> m{};
    for (auto& row : m) for (auto& x : row) x = static_cast<int>(r.range(-70000, 70000));
    const auto cm = convert_array_of_arrays<uint16_t>(m);
    static_assert(std::is_same_v<decltype(cm), const std::array<std::array<uint16_t, 4>, 3>>);
    for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 4; ++j) vm::require(cm[i][j] == static_cast<uint16_t>(m[i][j]), "array:convert-2d", [&] { return vm::cat(i, ",", j); });
    const auto grid = [&]<std::size_t N, std::size_t M>(std::integral_constant<std::size_t, N>, std::integral_constant<std::size_t, M>)
    {
        std::array<std::array<int64_t, M>, N> x{};
        for (auto& row : x) for (auto& y : row) y = r.range(-70000, 70000);
        const auto y = convert_array_of_arrays<int32_t>(x);
        static_assert(std::is_same_v<decltype(y), const std::array<std::array<int32_t, M>, N>>);
        for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < M; ++j) vm::require(y[i][j] == static_cast<int32_t>(x[i][j]), "array:convert-2d", [&] { return vm::cat(N, "x", M, " at ", i, ",", j); });
        std::array<int64_t, N * M> f{};
        for (auto& z : f) z = r.range(-70000, 70000);
        const auto h = convert_array<int32_t>(f);
        for (std::size_t i = 0; i < N * M; ++i) vm::require(h[i] == static_cast<int32_t>(f[i]), "array:convert", [&] { return vm::cat(N * M, " at ", i); });
        const auto cr = create_array<N * M>(f[0]);
        for (const auto& z : cr) vm::require(z == f[0] && cr.size() == N * M, "array:create", [&] { return vm::cat(N * M); });
    };
    grid(std::integral_constant<std::size_t, 1>{}, std::integral_constant<std::size_t, 9>{});
    grid(std::integral_constant<std::size_t, 7>{}, std::integral_constant<std::size_t, 2>{});
    grid(std::integral_constant<std::size_t, 5>{}, std::integral_constant<std::size_t, 13>{});
    grid(std::integral_constant<std::size_t, 19>{}, std::integral_constant<std::size_t, 3>{});
    grid(std::integral_constant<std::size_t, 24>{}, std::integral_constant<std::size_t, 24>{});
    vm::distinct(vm::list(s));
}
// ---- hashing
VM_SUITE(hashing, 6000, 100000)
{
    const auto gen = [&] { std::vector<int> v(r.below(7)); for (auto& x : v) x = static_cast<int>(r.below(5)); return v; };
    auto a = gen();
    // equal containers built in different orders hash alike
    auto b = a;
    for (std::size_t i = b.size(); i > 1; --i) std::swap(b[i - 1], b[r.below(i)]);
    const std::set<int>      sa(a.begin(), a.end()), sb(b.begin(), b.end());
    const std::multiset<int> ma(a.begin(), a.end()), mb(b.begin(), b.end());
    vm::require(std::hash<std::set<int>>{}(sa) == std::hash<std::set<int>>{}(sb), "hash:set", [&] { return vm::list(a); });
    vm::require(std::hash<std::multiset<int>>{}(ma) == std::hash<std::multiset<int>>{}(mb), "hash:multiset", [&] { return vm::list(a); });
    const std::array<int, 3> x{static_cast<int>(r.below(3)), static_cast<int>(r.below(3)), static_cast<int>(r.below(3))};
    auto y = x;
    vm::require(std::hash<std::array<int, 3>>{}(x) == std::hash<std::array<int, 3>>{}(y), "hash:array", [&] { return vm::list(x); });
    const std::pair<int, std::string> p{a.size(), "k"}, q{b.size(), "k"};
    vm::require(std::hash<std::pair<int, std::string>>{}(p) == std::hash<std::pair<int, std::string>>{}(q), "hash:pair", "");
    // the unordered combination depends on the multiset of values only
    std::size_t h1 = 17, h2 = 17, h3 = 17;
    for (const auto v : a) hash_combine_unordered(h1, v);
    for (const auto v : b) hash_combine_unordered(h2, v);
    vm::require(h1 == h2, "hash:unordered-order", [&] { return vm::list(a); });
    auto c = b;
    c.push_back(static_cast<int>(r.below(5)));
    for (const auto v : c) hash_combine_unordered(h3, v);
    vm::require(h1 != h3 || std::hash<int>{}(c.back()) == 0, "hash:unordered-multiplicity", [&] { return vm::list(c); });
    using cub = cube::coord_t;
    const int  k  = static_cast<int>(r.range(1, 50));
    std::size_t u = 0, w = 0;
    hash_combine_unordered(u, cub{0, 0}); hash_combine_unordered(u, cub{3 * k, 0});
    hash_combine_unordered(w, cub{k, 0}); hash_combine_unordered(w, cub{2 * k, 0});
    vm::require(u != w, "hash:unordered-linear-collision", vm::cat(k));
    // folding several values at once is folding them one after the other, and deterministic
    std::size_t s1 = r.s, s2 = r.s;
    const auto  e = static_cast<int>(r.below(100)), f = static_cast<int>(r.below(100)), g = static_cast<int>(r.below(100));
    hash_combine(s1, e, f, g);
    hash_combine(s2, e); hash_combine(s2, f); hash_combine(s2, g);
    vm::require(s1 == s2, "hash:variadic", vm::cat(e, f, g));
    vm::distinct(vm::list(a));
}
// no collisions to speak of: distinct small keys spread over distinct hash values
VM_SUITE(spread, 24, 200)
{
    std::unordered_set<std::size_t> pairs, arrays, sets;
    const int o = static_cast<int>(r.range(-1000, 1000));
    std::size_t n = 0, m = 0;
    std::unordered_map<std::pair<int, int>, int> map;
    for (int i = 0; i < 40; ++i)
        for (int j = 0; j < 40; ++j, ++n)
        {
            pairs.insert(std::hash<std::pair<int, int>>{}({o + i, o + j}));
            arrays.insert(std::hash<std::array<int, 2>>{}({o + i, o + j}));
            map[{o + i, o + j}] = i * 40 + j;
            if (i < j) { ++m; sets.insert(std::hash<std::set<int>>{}({o + i, o + j})); }
        }
    vm::require(map.size() == n, "spread:map", vm::cat(o));
    for (int i = 0; i < 40; ++i) for (int j = 0; j < 40; ++j) vm::require(map.at({o + i, o + j}) == i * 40 + j, "spread:map-value", vm::cat(o));
    // the first component must matter and so must the second, and their order
    vm::require(pairs.size() * 10 > n * 8 && arrays.size() * 10 > n * 8 && sets.size() * 10 > m * 8, "spread:collisions", [&] { return vm::cat(o, ": ", pairs.size(), " ", arrays.size(), " of ", n, ", ", sets.size(), " of ", m); });
    vm::distinct(static_cast<uint64_t>(o));
}
// ---- find_key_with_tolerance
VM_SUITE(tolerant_lookup, 8000, 150000)
{
    std::map<double, int>           m;
    std::unordered_map<double, int> um;
    for (auto n = r.below(8); n > 0; --n)
    {
        const double k = static_cast<double>(r.range(-5, 5)) * 0.001 + (r.chance(30) ? 1e3 : 0);
        m[k] = um[k] = static_cast<int>(r.below(1000));
    }
    double q = static_cast<double>(r.range(-6, 6)) * 0.001 + (r.chance(30) ? 1e3 : 0);
    if (r.chance(60)) q += r.one_of<double>({0.9e-6, -0.9e-6, 1.1e-6, -1.1e-6, 1e-8, -1e-8, 5e-4});
    int near = 0; double best = 1; int val = -1;
    for (const auto& [k, v] : m) if (std::abs(k - q) < 1e-6) { ++near; best = std::abs(k - q); val = v; }
    const auto d  = [&] { return vm::cat("key ", q, " near ", near, " distance ", best); };
    const auto i  = find_key_with_tolerance(m, q);
    const auto ui = find_key_with_tolerance(um, q);
    vm::require((i != m.cend()) == (near > 0) && (ui != um.cend()) == (near > 0), "tolerance:found", d);
    if (near == 1 && i != m.cend() && ui != um.cend()) vm::require(i->second == val && ui->second == val, "tolerance:value", d);
    if (near > 0) vm::count("keys found within the tolerance");
    vm::distinct(vm::cat(q, m.size()));
}
// ---- safe_localtime
VM_SUITE(local_time, 2000, 40000)
{
    const auto t = static_cast<std::time_t>(r.range(0, 4000000000ll));
    std::tm    want{};
    localtime_r(&t, &want);
    const auto g = safe_localtime(t);
    vm::require(g.tm_sec == want.tm_sec && g.tm_min == want.tm_min && g.tm_hour == want.tm_hour && g.tm_mday == want.tm_mday && g.tm_mon == want.tm_mon && g.tm_year == want.tm_year && g.tm_wday == want.tm_wday && g.tm_yday == want.tm_yday && g.tm_isdst == want.tm_isdst, "localtime:fields", vm::cat(t));
    auto back = g;
    vm::require(std::mktime(&back) == t, "localtime:roundtrip", vm::cat(t));
    vm::distinct(static_cast<uint64_t>(t));
}
// conversions in several threads do not disturb each other
VM_SUITE(local_time_threads, 12, 150)
{
    std::vector<std::thread> ts;
    std::atomic<long>        wrong{0};
    for (int k = 0; k < 4; ++k)
        ts.emplace_back([&wrong, g = vm::rng{r()}]() mutable
        {
            for (int i = 0; i < 1500; ++i)
            {
                const auto t = static_cast<std::time_t>(g.range(0, 4000000000ll));
                std::tm    want{};
                localtime_r(&t, &want);
                const auto x = safe_localtime(t);
                wrong += x.tm_sec != want.tm_sec || x.tm_min != want.tm_min || x.tm_hour != want.tm_hour || x.tm_mday != want.tm_mday || x.tm_yday != want.tm_yday || x.tm_year != want.tm_year;
            }
        });
    for (auto& t : ts) t.join();
    vm::require(wrong == 0, "localtime:threads", [&] { return vm::cat(wrong.load(), " of 6000 conversions in 4 threads are wrong"); });
    vm::count("concurrent conversions", 6000);
    vm::distinct(r());
}
// ---- execution policies: same results as without
VM_SUITE(policies, 150, 3000)
{
    std::vector<int> v(r.range(0, 3000));
    for (auto& x : v) x = static_cast<int>(r.below(1000000));
    const auto sum  = std::accumulate(v.begin(), v.end(), int64_t{0});
    auto       want = v;
    std::sort(want.begin(), want.end());
    auto a = v, b = v, c = v;
    std::sort(FICTION_EXECUTION_POLICY_SEQ a.begin(), a.end());
    std::sort(FICTION_EXECUTION_POLICY_PAR b.begin(), b.end());
    std::sort(FICTION_EXECUTION_POLICY_PAR_UNSEQ c.begin(), c.end());
    vm::require(a == want && b == want && c == want, "policy:sort", vm::cat(v.size()));
    std::vector<int> o(v.size());
    std::transform(FICTION_EXECUTION_POLICY_PAR v.begin(), v.end(), o.begin(), [](const int x) { return x + 1; });
    vm::require(std::accumulate(o.begin(), o.end(), int64_t{0}) == sum + static_cast<int64_t>(v.size()), "policy:transform", vm::cat(v.size()));
    std::atomic<int64_t> total{0};
    std::for_each(FICTION_EXECUTION_POLICY_PAR v.begin(), v.end(), [&](const int x) { total += x; });
    vm::require(total == sum, "policy:for-each", vm::cat(v.size()));
    vm::distinct(static_cast<uint64_t>(sum));
}
VM_MAIN
