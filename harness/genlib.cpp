#include "vm.hpp"

#include <fiction/technology/technology_mapping_library.hpp>

#include <map>
#include <set>

using namespace fiction;

namespace
{
// GENLIB expressions: ! postfix-free, '*' over '+' and '^' (left to right), parentheses, a/b/c, CONST0/CONST1
struct parser
{
    std::string s;
    std::size_t i{0};
    bool        ok{true};
    int         vars{0};
    int         A{0}, B{0}, C{0};
    char peek() const { return i < s.size() ? s[i] : 0; }
    bool prim()
    {
        if (peek() == '!') { ++i; return !prim(); }
        if (peek() == '(') { ++i; const bool v = sum(); if (peek() == ')') ++i; else ok = false; return v; }
        if (s.compare(i, 6, "CONST0") == 0) { i += 6; return false; }
        if (s.compare(i, 6, "CONST1") == 0) { i += 6; return true; }
        const char c = peek();
        ++i;
        if (c == 'a') { vars |= 1; return A; }
        if (c == 'b') { vars |= 2; return B; }
        if (c == 'c') { vars |= 4; return C; }
        ok = false;
        return false;
    }
    bool prod() { bool v = prim(); while (peek() == '*' || peek() == '&') { ++i; const bool w = prim(); v = v && w; } return v; }
    bool sum()
    {
        bool v = prod();
        while (peek() == '+' || peek() == '|' || peek() == '^') { const char o = peek(); ++i; const bool w = prod(); v = o == '^' ? v != w : (v || w); }
        return v;
    }
};
struct gate { std::string name; double area; unsigned tt; int vars; };
std::vector<gate> parse(const std::string& text, const char* which)
{
    std::vector<gate>  g;
    std::istringstream is{text};
    std::string        line;
    vm::require(!text.empty() && text.back() == '\n', "genlib:ends-with-newline", which);
    while (std::getline(is, line))
    {
        std::istringstream ls{line};
        std::string        kw, name, area;
        ls >> kw >> name >> area;
        const auto eq = line.find("O="), sc = line.find(';');
        if (!vm::require(kw == "GATE" && eq != std::string::npos && sc != std::string::npos && eq < sc, "genlib:syntax", line)) continue;
        std::string e;
        for (auto k = eq + 2; k < sc; ++k) if (line[k] != ' ') e += line[k];
        unsigned tt = 0; int vars = 0; bool ok = true;
        for (int m = 0; m < 8; ++m)
        {
            parser p{e};
            p.A = m & 1; p.B = (m >> 1) & 1; p.C = (m >> 2) & 1;
            const bool v = p.sum();
            ok   = ok && p.ok && p.i == e.size();
            vars |= p.vars;
            tt |= static_cast<unsigned>(v) << m;
        }
        vm::require(ok, "genlib:expression", line);
        vm::require(vars == 0 || line.find("PIN * ", sc) != std::string::npos, "genlib:pins", line);
        g.push_back({name, std::stod(area), tt, vars});
    }
    return g;
}
unsigned tt3(bool (*f)(int, int, int)) { unsigned t = 0; for (int m = 0; m < 8; ++m) t |= static_cast<unsigned>(f(m & 1, (m >> 1) & 1, (m >> 2) & 1)) << m; return t; }
int support(unsigned tt)
{
    int s = 0;
    for (int v = 0; v < 3; ++v) for (int m = 0; m < 8; ++m) if (((tt >> m) & 1) != ((tt >> (m ^ (1 << v))) & 1)) s |= 1 << v;
    return s;
}
struct entry { const char* what; std::string text; int arity; bool (*f)(int, int, int); };
const std::vector<entry>& gates()
{
    static const std::vector<entry> e{
        {"zero", GATE_ZERO, 0, [](int, int, int) { return false; }},
        {"one", GATE_ONE, 0, [](int, int, int) { return true; }},
        {"buf", GATE_BUF, 1, [](int a, int, int) { return a != 0; }},
        {"inv1", GATE_INV, 1, [](int a, int, int) { return a == 0; }},
        {"and2", GATE_AND2, 2, [](int a, int b, int) { return a && b; }},
        {"nand2", GATE_NAND2, 2, [](int a, int b, int) { return !(a && b); }},
        {"or2", GATE_OR2, 2, [](int a, int b, int) { return a || b; }},
        {"nor2", GATE_NOR2, 2, [](int a, int b, int) { return !(a || b); }},
        {"xor2", GATE_XOR2, 2, [](int a, int b, int) { return a != b; }},
        {"xnor2", GATE_XNOR2, 2, [](int a, int b, int) { return a == b; }},
        {"lt2", GATE_LT2, 2, [](int a, int b, int) { return a < b; }},
        {"gt2", GATE_GT2, 2, [](int a, int b, int) { return a > b; }},
        {"le2", GATE_LE2, 2, [](int a, int b, int) { return a <= b; }},
        {"ge2", GATE_GE2, 2, [](int a, int b, int) { return a >= b; }},
        {"and3", GATE_AND3, 3, [](int a, int b, int c) { return a && b && c; }},
        {"xor_and", GATE_XOR_AND, 3, [](int a, int b, int c) { return a && (b != c); }},
        {"or_and", GATE_OR_AND, 3, [](int a, int b, int c) { return a && (b || c); }},
        {"onehot", GATE_ONEHOT, 3, [](int a, int b, int c) { return a + b + c == 1; }},
        {"maj3", GATE_MAJ3, 3, [](int a, int b, int c) { return a + b + c >= 2; }},
        {"gamble", GATE_GAMBLE, 3, [](int a, int b, int c) { return a == b && b == c; }},
        {"dot", GATE_DOT, 3, [](int a, int b, int c) { return (a != 0) != (c || (a && b)); }},
        {"mux", GATE_MUX, 3, [](int a, int b, int c) { return c ? b != 0 : a != 0; }},
        {"and_xor", GATE_AND_XOR, 3, [](int a, int b, int c) { return (a != 0) != (b && c); }}};
    return e;
}
struct decay { const char* of; std::string text; };
const std::vector<decay>& decays()
{
    static const std::vector<decay> d{{"and3", DECAY_AND3}, {"xor_and", DECAY_XOR_AND}, {"or_and", DECAY_OR_AND}, {"onehot", DECAY_ONEHOT}, {"maj3", DECAY_MAJ3}, {"gamble", DECAY_GAMBLE}, {"dot", DECAY_DOT}, {"mux", DECAY_MUX}, {"and_xor", DECAY_AND_XOR}};
    return d;
}
// what is left of tt when one input is a constant, written over two inputs a, b; closed under exchanging a and b
std::set<unsigned> cofactors(unsigned tt)
{
    std::set<unsigned> r;
    for (int v = 0; v < 3; ++v)
        for (int k = 0; k < 2; ++k)
            for (int swap = 0; swap < 2; ++swap)
            {
                unsigned t = 0;
                for (int m = 0; m < 8; ++m)
                {
                    int in[2] = {m & 1, (m >> 1) & 1};
                    if (swap) std::swap(in[0], in[1]);
                    int full = 0, w = 0;
                    for (int x = 0; x < 3; ++x) full |= (x == v ? k : in[w++]) << x;
                    t |= ((tt >> full) & 1) << m;
                }
                r.insert(t);
            }
    return r;
}
}  // namespace

VM_SUITE(functions, 23, 23)
{
    const auto& e = gates()[static_cast<std::size_t>(vm::st().cur_case) % gates().size()];
    const auto  g = parse(e.text, e.what);
    if (!vm::require(g.size() == 1, "genlib:one-gate", e.what)) return;
    const auto want = tt3(e.f);
    vm::require(g[0].tt == want, "genlib:function", [&] { return vm::cat(e.what, " has truth table ", g[0].tt, " instead of ", want); });
    vm::require(g[0].name == e.what, "genlib:name", [&] { return vm::cat(e.what, " is called ", g[0].name); });
    vm::require(g[0].vars == (1 << e.arity) - 1 && support(g[0].tt) == (1 << e.arity) - 1, "genlib:arity", e.what);
    vm::require(e.arity == 0 ? g[0].area == 0 : g[0].area > 0, "genlib:area", e.what);
    vm::distinct(e.what);
    vm::sample(vm::cat(e.what, " tt ", g[0].tt));
}
// every decay gate is its gate with one input tied to a constant, and together they are all such functions of two inputs
VM_SUITE(decay_gates, 9, 9)
{
    const auto& d = decays()[static_cast<std::size_t>(vm::st().cur_case) % decays().size()];
    unsigned    tt = 0;
    for (const auto& e : gates()) if (std::string(e.what) == d.of) tt = tt3(e.f);
    const auto         all = cofactors(tt);
    const auto         g   = parse(d.text, d.of);
    std::set<unsigned> have, exact;
    std::set<std::string> names;
    int n = 0;
    for (const auto& x : g)
    {
        ++n;
        vm::require(all.count(x.tt) == 1, "decay:is-a-cofactor", [&] { return vm::cat(x.name, " has truth table ", x.tt); });
        vm::require(support(x.tt) == x.vars && (x.vars == 1 || x.vars == 3), "decay:support", [&] { return x.name; });
        vm::require(names.insert(x.name).second && x.name == vm::cat("d", n, "_", d.of), "decay:name", [&] { return x.name; });
        vm::require(x.area > 0, "decay:area", x.name);
        vm::require(exact.insert(x.tt).second, "decay:duplicate", [&] { return x.name; });
        have.insert(x.tt);
        // remember the exchange of a and b as present
        unsigned sw = 0;
        for (int m = 0; m < 8; ++m) sw |= ((x.tt >> (((m & 1) << 1) | ((m >> 1) & 1) | (m & 4))) & 1) << m;
        have.insert(sw);
        vm::distinct(x.name);
    }
    for (const auto t : all)
    {
        if (support(t) != 3) continue;  // constants and wires need no gate of their own
        unsigned u = t;
        vm::require(have.count(u) == 1, "decay:complete", [&] { return vm::cat(d.of, " decays to ", u, " as well"); });
    }
}
VM_MAIN
