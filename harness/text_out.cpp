#include "vm.hpp"

#include <map>
#include <sstream>

#include <fiction/io/csv_writer.hpp>
#include <fiction/utils/debug/layout_printer.hpp>

#include <fmt/format.h>

#include <algorithm>

#include <functional>
#include <iostream>
#include <sstream>

using namespace fiction;

namespace
{
// a stream buffer that reports what has been flushed
struct counting_buf : std::stringbuf
{
    int syncs{0};
    int sync() override { ++syncs; return std::stringbuf::sync(); }
};
struct odd { int a; };
std::ostream& operator<<(std::ostream& o, const odd& x) { return o << "odd" << x.a; }
// minimal layout for the printers; nodes, tiles, and signals are of different types
struct fake_layout
{
    std::vector<std::vector<int>> in, out;  // per node, node ids; node 0 is "no node"
    std::vector<int>              tile_node;
    template <typename F> void foreach_node(F f) const { for (int n = 1; n < static_cast<int>(in.size()); ++n) f(n); }
    template <typename F> void foreach_tile(F f) const { for (unsigned long t = 0; t < tile_node.size(); ++t) f(t); }
    template <typename F> void foreach_fanin(int n, F f) const { for (int x : in[n]) f(static_cast<short>(x)); }
    template <typename F> void foreach_fanout(int n, F f) const { for (int x : out[n]) f(x); }
    long get_tile(int n) const { for (std::size_t t = 0; t < tile_node.size(); ++t) if (tile_node[t] == n) return static_cast<long>(t); return -1; }
    int get_node(unsigned long t) const { return tile_node[t]; }
    int get_node(short f) const { return f; }
};
// the lines about adjacent nodes after each headline, in the order printed
struct printed { std::vector<std::string> in, out; int times{0}; };
std::map<std::string, printed> sections(const std::string& s)
{
    std::map<std::string, printed> m;
    std::istringstream             is{s};
    std::string                    line;
    printed*                       p   = nullptr;
    bool                           out = false;
    while (std::getline(is, line))
    {
        if (line.rfind("node ", 0) == 0) p = &m[line], ++p->times;
        else if (line.find("fanins") != std::string::npos) out = false;
        else if (line.find("fanouts") != std::string::npos) out = true;
        else if (p && line.rfind("\t   ", 0) == 0) (out ? p->out : p->in).push_back(line.substr(4));
    }
    return m;
}
std::size_t count_of(const std::string& s, const std::string& p) { std::size_t n = 0; for (auto i = s.find(p); i != std::string::npos; i = s.find(p, i + 1)) ++n; return n; }
}  // namespace

VM_SUITE(csv_lines, 6000, 100000)
{
    counting_buf  buf;
    std::ostream  os{&buf};
    csv_writer    w{os};
    std::string   want;
    const auto    lines = r.range(1, 6);
    for (int64_t i = 0; i < lines; ++i)
    {
        const int         a = static_cast<int>(r());
        const uint64_t    b = r();
        const double      c = static_cast<double>(r.range(-1000, 1000)) / 8;
        std::string       s;
        for (auto n = r.below(6); n > 0; --n) s += r.one_of<char>({'a', ' ', ';', '"', ',', 'z', '\t'});
        const std::string keep = s;
        const char        ch   = static_cast<char>('a' + r.below(26));
        const bool        bo   = r.chance(50);
        std::ostringstream e;
        switch (r.below(9))
        {
            case 0: w.write_line(); break;
            case 1: w.write_line(a); e << a; break;
            case 2: w.write_line(s); e << s; break;
            case 3: w.write_line(a, b); e << a << ',' << b; break;
            case 4: w.write_line(s, c, ch); e << s << ',' << c << ',' << ch; break;
            case 5: w.write_line("lit", std::string_view{keep}, odd{a}, bo); e << "lit," << keep << ",odd" << a << ',' << bo; break;
            case 6: w.write_line(a, b, c, s, ch, bo, odd{3}, "x"); e << a << ',' << b << ',' << c << ',' << s << ',' << ch << ',' << bo << ",odd3,x"; break;
            case 7: w.write_line("", "", ""); e << ",,"; break;
            default: w.write_line(c, c, c, c, c); e << c << ',' << c << ',' << c << ',' << c << ',' << c; break;
        }
        want += e.str() + "\n";
        vm::require(s == keep, "csv:argument-consumed", keep);
        vm::require(buf.str() == want, "csv:text", [&] { return "wrote " + buf.str() + " instead of " + want; });
        vm::require(buf.syncs > 0, "csv:line-flushed", want);
        buf.syncs = 0;
        vm::count("csv lines");
    }
    vm::distinct(want);
    vm::sample(want);
}
// documents and fields beyond any internal buffer
VM_SUITE(csv_long, 40, 400)
{
    counting_buf buf;
    std::ostream os{&buf};
    csv_writer   w{os};
    std::string  want(r.below(9), 'h');
    w.write_line(want);
    want += '\n';
    const auto size = static_cast<std::size_t>(r.range(1 << 12, 1 << 18));
    const int  kind = static_cast<int>(r.below(4));
    while (want.size() < size)
    {
        std::string f(kind == 0 ? 1 : kind == 1 ? r.below(4) : kind == 2 ? r.below(300) : r.below(1 << 15), static_cast<char>('a' + r.below(26)));
        w.write_line(f, f.size(), f, 'x');
        want += f + ',' + std::to_string(f.size()) + ',' + f + ",x\n";
    }
    const auto got = buf.str();
    vm::require(got == want, "csv:long-document", [&] { const auto at = std::mismatch(got.begin(), got.end(), want.begin(), want.end()).first - got.begin(); return vm::cat("differs at byte ", at, " of ", want.size()); });
    vm::count("bytes of long documents", static_cast<long>(want.size()));
    vm::distinct(vm::fnv(want));
}
VM_SUITE(csv_manipulators, 300, 3000)
{
    // formatting state of the stream belongs to the caller
    std::ostringstream os, ref;
    os.precision(static_cast<int>(r.range(1, 15)));
    ref.precision(os.precision());
    if (r.chance(50)) { os << std::hex; ref << std::hex; }
    csv_writer w{os};
    const double x = r.real(-1e6, 1e6);
    const int    i = static_cast<int>(r.below(100000));
    w.write_line(x, i);
    w.write_line(i, x);
    ref << x << ',' << i << '\n' << i << ',' << x << '\n';
    vm::require(os.str() == ref.str(), "csv:stream-format", [&] { return os.str(); });
    vm::distinct(os.str());
}
VM_SUITE(layout_printer, 600, 10000)
{
    fake_layout l;
    const int   n = static_cast<int>(r.range(0, 6));
    l.in.resize(n + 1);
    l.out.resize(n + 1);
    l.tile_node.assign(static_cast<std::size_t>(n + r.range(0, 4)), 0);
    for (int k = 1; k <= n; ++k) l.tile_node[k - 1] = k;
    std::size_t edges = 0;
    for (int k = 1; k <= n; ++k) for (int j = k + 1; j <= n; ++j) if (r.chance(40)) { l.in[j].push_back(k); l.out[k].push_back(j); ++edges; }
    for (int k = n; k > 1; --k) std::swap(l.tile_node[k - 1], l.tile_node[r.below(l.tile_node.size())]);
    for (const bool by_tile : {false, true})
    {
        std::ostringstream cap;
        auto* const        old = std::cout.rdbuf(cap.rdbuf());
        if (by_tile) debug::print_tile_to_node_assignments(l);
        else debug::print_node_to_tile_assignments(l);
        std::cout.rdbuf(old);
        const auto s   = cap.str();
        const auto got = sections(s);
        vm::require(got.size() == static_cast<std::size_t>(n), "printer:nodes", s);
        for (int k = 1; k <= n; ++k)
        {
            const auto line = fmt::format("node {} @ {}", k, l.get_tile(k));
            const auto it   = got.find(line);
            if (!vm::require(it != got.end() && it->second.times == 1, "printer:node-once", [&] { return line + " in " + s; })) continue;
            const auto want = [&](const std::vector<int>& v) { std::vector<std::string> w; for (const int x : v) w.push_back(fmt::format("{} @ {}", x, l.get_tile(x))); return w; };
            vm::require(it->second.in == want(l.in[k]) && it->second.out == want(l.out[k]), "printer:adjacency", [&] { return line + s; });
        }
        for (std::size_t t = 0; by_tile && t < l.tile_node.size(); ++t) vm::require(count_of(s, fmt::format("\ntile {}\n", t)) == 1, "printer:tile-once", s);
        vm::require(count_of(s, "\t   ") == 2 * edges && count_of(s, by_tile ? "TILE TO NODE" : "NODE TO TILE") == 1, "printer:edges", s);
        vm::distinct(s);
    }
}
VM_MAIN
