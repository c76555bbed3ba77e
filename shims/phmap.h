// Stand-in for parallel-hashmap's phmap.h (the library is not installed in this sandbox). Documented semantics only:
//  * flat_hash_{map,set}: unordered associative containers
//  * parallel_flat_hash_{map,set}: the same, plus the *_l / if_* / lazy_emplace_l modifiers, which run under the map's
//    mutex iff a real Mutex was given. With the default NullMutex there is no locking at all (as in phmap), so a data race
//    of the caller stays visible to ThreadSanitizer.
#pragma once
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <stdexcept>
#include <type_traits>
#include <functional>
#include <memory>
#include <mutex>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include "btree.h"
namespace phmap
{
struct NullMutex
{
    void lock() {}
    void unlock() {}
    bool try_lock() { return true; }
};
// looks std::hash<T> up when it is first *called*, as phmap's own default hasher does
template <typename T>
struct Hash
{
    std::size_t operator()(const T& t) const noexcept { return std::hash<T>{}(t); }
};
namespace priv
{
template <typename T>
using hash_default_hash = Hash<T>;
template <typename T>
using hash_default_eq = std::equal_to<T>;
template <typename T>
using Allocator = std::allocator<T>;
template <typename K, typename V>
using Pair = std::pair<K, V>;
}  // namespace priv
template <typename T>
using EqualTo = std::equal_to<T>;

namespace shim
{
// Open-addressing table with phmap's validity rules: growing moves every element into a fresh allocation (old references
// and iterators dangle, and AddressSanitizer sees their use), erasing only marks the slot (the iterator can still be
// advanced). The iteration order is a function of the hash values and the insertion history only.
template <typename K, typename T, typename KeyOf, typename H, typename E>
class table
{
  protected:
    enum : unsigned char
    {
        FREE    = 0,
        TOMB    = 1,
        FULL    = 2,
        SENTINEL = 3
    };
    struct arrays
    {
        std::unique_ptr<unsigned char[]> ctrl{};
        std::unique_ptr<unsigned char[]> raw{};
        std::size_t                      cap{0};
        T*                               slot(std::size_t i) const
        {
            return reinterpret_cast<T*>(raw.get()) + i;
        }
    };
    arrays      a{};
    std::size_t n{0}, used{0};

    static std::size_t mix(std::size_t h)
    {
        h ^= h >> 32;
        h *= 0x9e3779b97f4a7c15ull;
        h ^= h >> 29;
        return h;
    }
    static arrays make(std::size_t cap)
    {
        static_assert(alignof(T) <= 16);
        arrays r;
        r.cap  = cap;
        r.ctrl = std::unique_ptr<unsigned char[]>(new unsigned char[cap + 1]());
        r.ctrl[cap] = SENTINEL;
        r.raw  = std::unique_ptr<unsigned char[]>(new unsigned char[cap * sizeof(T)]);
        return r;
    }
    void grow(std::size_t cap)
    {
        arrays b = make(cap);
        for (std::size_t i = 0; i < a.cap; ++i)
        {
            if (a.ctrl[i] == FULL)
            {
                std::size_t p = mix(H{}(KeyOf{}(*a.slot(i)))) & (cap - 1);
                while (b.ctrl[p] != FREE)
                {
                    p = (p + 1) & (cap - 1);
                }
                new (b.slot(p)) T(std::move(*a.slot(i)));
                b.ctrl[p] = FULL;
                a.slot(i)->~T();
            }
        }
        a    = std::move(b);
        used = n;
    }
    template <typename KK>
    [[nodiscard]] std::size_t lookup(const KK& k) const
    {
        if (a.cap == 0)
        {
            return 0;
        }
        std::size_t p = mix(H{}(k)) & (a.cap - 1);
        while (a.ctrl[p] != FREE)
        {
            if (a.ctrl[p] == FULL && E{}(KeyOf{}(*a.slot(p)), k))
            {
                return p;
            }
            p = (p + 1) & (a.cap - 1);
        }
        return a.cap;
    }
    // slot for a key known to be absent
    std::size_t place(const K& k)
    {
        if (a.cap == 0)
        {
            grow(8);
        }
        else if ((used + 1) * 8 > a.cap * 7)
        {
            grow((n + 1) * 16 > a.cap * 7 ? a.cap * 2 : a.cap);
        }
        std::size_t p = mix(H{}(k)) & (a.cap - 1);
        while (a.ctrl[p] == FULL)
        {
            p = (p + 1) & (a.cap - 1);
        }
        return p;
    }
    template <typename... Args>
    void fill(std::size_t p, Args&&... args)
    {
        new (a.slot(p)) T(std::forward<Args>(args)...);
        used += a.ctrl[p] == FREE ? 1 : 0;
        a.ctrl[p] = FULL;
        ++n;
    }

  public:
    template <bool C>
    class iter
    {
        friend class table;
        template <bool>
        friend class iter;
        const unsigned char* c{nullptr};
        T*                   s{nullptr};
        void                 skip()
        {
            while (*c < FULL)
            {
                ++c;
                ++s;
            }
        }
        iter(const unsigned char* cc, T* ss) : c(cc), s(ss) {}

      public:
        using iterator_category = std::forward_iterator_tag;
        using value_type        = T;
        using difference_type   = std::ptrdiff_t;
        using reference         = std::conditional_t<C, const T&, T&>;
        using pointer           = std::conditional_t<C, const T*, T*>;
        iter()                  = default;
        template <bool D, typename = std::enable_if_t<C && !D>>
        iter(const iter<D>& o) : c(o.c), s(o.s)
        {}
        reference operator*() const { return *s; }
        pointer   operator->() const { return s; }
        iter&     operator++()
        {
            ++c;
            ++s;
            skip();
            return *this;
        }
        iter operator++(int)
        {
            auto r = *this;
            ++*this;
            return r;
        }
        template <bool D>
        bool operator==(const iter<D>& o) const
        {
            return s == o.s;
        }
    };
    using const_iterator  = iter<true>;
    using iterator        = std::conditional_t<std::is_same_v<K, T>, iter<true>, iter<false>>;
    using key_type        = K;
    using value_type      = T;
    using size_type       = std::size_t;
    using difference_type = std::ptrdiff_t;
    using reference       = T&;
    using const_reference = const T&;
    using hasher          = H;
    using key_equal       = E;

    table() = default;
    table(const table& o)
    {
        for (const auto& x : o)
        {
            insert(x);
        }
    }
    table(table&& o) noexcept : a(std::move(o.a)), n(std::exchange(o.n, 0)), used(std::exchange(o.used, 0)) { o.a.cap = 0; }
    table& operator=(const table& o)
    {
        if (this != &o)
        {
            table t(o);
            swap(t);
        }
        return *this;
    }
    table& operator=(table&& o) noexcept
    {
        table t(std::move(o));
        swap(t);
        return *this;
    }
    ~table() { clear(); }
    void swap(table& o) noexcept
    {
        std::swap(a, o.a);
        std::swap(n, o.n);
        std::swap(used, o.used);
    }
    iterator       begin() { return mk<iterator>(0, true); }
    iterator       end() { return mk<iterator>(a.cap, false); }
    const_iterator begin() const { return mk<const_iterator>(0, true); }
    const_iterator end() const { return mk<const_iterator>(a.cap, false); }
    const_iterator cbegin() const { return begin(); }
    const_iterator cend() const { return end(); }
    [[nodiscard]] std::size_t size() const { return n; }
    [[nodiscard]] bool        empty() const { return n == 0; }
    void                      clear()
    {
        for (std::size_t i = 0; i < a.cap; ++i)
        {
            if (a.ctrl[i] == FULL)
            {
                a.slot(i)->~T();
            }
        }
        a = arrays{};
        n = used = 0;
    }
    void rehash(std::size_t m) { reserve(m); }
    void reserve(std::size_t m)
    {
        std::size_t cap = 8;
        while (m * 8 > cap * 7)
        {
            cap *= 2;
        }
        if (cap > a.cap)
        {
            grow(cap);
        }
    }
    iterator                  find(const K& k) { return mk<iterator>(lookup(k), false); }
    const_iterator            find(const K& k) const { return mk<const_iterator>(lookup(k), false); }
    [[nodiscard]] bool        contains(const K& k) const { return lookup(k) != a.cap; }
    [[nodiscard]] std::size_t count(const K& k) const { return contains(k) ? 1 : 0; }
    std::pair<iterator, bool> insert(const T& v) { return put(T(v)); }
    std::pair<iterator, bool> insert(T&& v) { return put(std::move(v)); }
    iterator                  insert(const_iterator, const T& v) { return put(T(v)).first; }
    template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
    void insert(It f, It l)
    {
        for (; f != l; ++f)
        {
            emplace(*f);
        }
    }
    void insert(std::initializer_list<T> il) { insert(il.begin(), il.end()); }
    template <typename... Args>
    std::pair<iterator, bool> emplace(Args&&... args)
    {
        return put(T(std::forward<Args>(args)...));
    }
    std::size_t erase(const K& k)
    {
        const auto p = lookup(k);
        if (p == a.cap)
        {
            return 0;
        }
        drop(p);
        return 1;
    }
    iterator erase(const_iterator it)
    {
        const auto p = static_cast<std::size_t>(it.s - a.slot(0));
        drop(p);
        return mk<iterator>(p, true);
    }
    friend bool operator==(const table& l, const table& r)
    {
        if (l.n != r.n)
        {
            return false;
        }
        for (const auto& x : l)
        {
            const auto p = r.lookup(KeyOf{}(x));
            if (p == r.a.cap || !(*r.a.slot(p) == x))
            {
                return false;
            }
        }
        return true;
    }

  protected:
    template <typename I>
    I mk(std::size_t p, bool skip) const
    {
        static constexpr unsigned char none[1] = {SENTINEL};
        if (a.cap == 0)
        {
            return I(none, nullptr);
        }
        I i(a.ctrl.get() + p, a.slot(p));
        if (skip)
        {
            i.skip();
        }
        return i;
    }
    std::pair<iterator, bool> put(T&& v)
    {
        const auto q = lookup(KeyOf{}(v));
        if (q != a.cap)
        {
            return {mk<iterator>(q, false), false};
        }
        const auto p = place(KeyOf{}(v));
        fill(p, std::move(v));
        return {mk<iterator>(p, false), true};
    }
    void drop(std::size_t p)
    {
        a.slot(p)->~T();
        a.ctrl[p] = TOMB;
        --n;
    }
};
struct first_of
{
    template <typename P>
    const auto& operator()(const P& p) const
    {
        return p.first;
    }
};
struct itself
{
    template <typename P>
    const P& operator()(const P& p) const
    {
        return p;
    }
};
template <typename K, typename V, typename H, typename E>
class map_table : public table<K, std::pair<const K, V>, first_of, H, E>
{
    using B = table<K, std::pair<const K, V>, first_of, H, E>;

  public:
    using mapped_type = V;
    using iterator    = typename B::iterator;
    map_table()       = default;
    map_table(std::initializer_list<typename B::value_type> il) { B::insert(il.begin(), il.end()); }
    explicit map_table(std::size_t m) { B::reserve(m); }
    template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
    map_table(It f, It l)
    {
        B::insert(f, l);
    }
    V& at(const K& k)
    {
        const auto p = B::lookup(k);
        if (p == B::a.cap)
        {
            throw std::out_of_range("phmap at(): lookup non-existent key");
        }
        return B::a.slot(p)->second;
    }
    const V& at(const K& k) const { return const_cast<map_table*>(this)->at(k); }
    V&       operator[](const K& k) { return try_emplace(k).first->second; }
    template <typename... Args>
    std::pair<iterator, bool> try_emplace(const K& k, Args&&... args)
    {
        const auto q = B::lookup(k);
        if (q != B::a.cap)
        {
            return {B::template mk<iterator>(q, false), false};
        }
        const K    kk(k);
        const auto p = B::place(kk);
        B::fill(p, std::piecewise_construct, std::forward_as_tuple(kk), std::forward_as_tuple(std::forward<Args>(args)...));
        return {B::template mk<iterator>(p, false), true};
    }
    template <typename W>
    std::pair<iterator, bool> insert_or_assign(const K& k, W&& w)
    {
        auto r = try_emplace(k, std::forward<W>(w));
        if (!r.second)
        {
            r.first->second = std::forward<W>(w);
        }
        return r;
    }
};
template <typename K, typename H, typename E>
class set_table : public table<K, K, itself, H, E>
{
    using B = table<K, K, itself, H, E>;

  public:
    set_table() = default;
    set_table(std::initializer_list<K> il) { B::insert(il.begin(), il.end()); }
    explicit set_table(std::size_t m) { B::reserve(m); }
    template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
    set_table(It f, It l)
    {
        B::insert(f, l);
    }
};
}  // namespace shim

template <typename K, typename V, typename H = Hash<K>, typename E = std::equal_to<K>,
          typename A = std::allocator<std::pair<const K, V>>>
class flat_hash_map : public shim::map_table<K, V, H, E>
{
    using B = shim::map_table<K, V, H, E>;

  public:
    using B::B;
    flat_hash_map() = default;
};
template <typename K, typename H = Hash<K>, typename E = std::equal_to<K>, typename A = std::allocator<K>>
class flat_hash_set : public shim::set_table<K, H, E>
{
    using B = shim::set_table<K, H, E>;

  public:
    using B::B;
    flat_hash_set() = default;
};
template <typename K, typename V, typename H = Hash<K>, typename E = std::equal_to<K>,
          typename A = std::allocator<std::pair<const K, V>>>
using node_hash_map = flat_hash_map<K, V, H, E, A>;
template <typename K, typename H = Hash<K>, typename E = std::equal_to<K>, typename A = std::allocator<K>>
using node_hash_set = flat_hash_set<K, H, E, A>;

namespace shim
{
// owns the mutex and gives it value semantics (a copy gets its own mutex)
template <typename M>
struct mtx
{
    mutable M m{};
    mtx() = default;
    mtx(const mtx&) {}
    mtx(mtx&&) noexcept {}
    mtx& operator=(const mtx&) { return *this; }
    mtx& operator=(mtx&&) noexcept { return *this; }
};
}  // namespace shim

template <typename K, typename V, typename H = Hash<K>, typename E = std::equal_to<K>,
          typename A = std::allocator<std::pair<const K, V>>, std::size_t N = 4, typename Mutex = NullMutex>
class parallel_flat_hash_map
{
    using B = shim::map_table<K, V, H, E>;
    B                 b{};
    shim::mtx<Mutex>  mx{};
    using guard = std::lock_guard<Mutex>;

  public:
    using key_type       = K;
    using mapped_type    = V;
    using value_type     = typename B::value_type;
    using size_type      = std::size_t;
    using iterator       = typename B::iterator;
    using const_iterator = typename B::const_iterator;
    using hasher         = H;
    using key_equal      = E;

    parallel_flat_hash_map() = default;
    parallel_flat_hash_map(std::initializer_list<value_type> il) : b(il) {}
    explicit parallel_flat_hash_map(std::size_t n) : b(n) {}
    template <typename It>
    parallel_flat_hash_map(It f, It l) : b(f, l)
    {}

    iterator       begin() { return b.begin(); }
    iterator       end() { return b.end(); }
    const_iterator begin() const { return b.begin(); }
    const_iterator end() const { return b.end(); }
    const_iterator cbegin() const { return b.cbegin(); }
    const_iterator cend() const { return b.cend(); }

    [[nodiscard]] std::size_t size() const
    {
        guard g(mx.m);
        return b.size();
    }
    [[nodiscard]] bool empty() const
    {
        guard g(mx.m);
        return b.empty();
    }
    void clear()
    {
        guard g(mx.m);
        b.clear();
    }
    void reserve(std::size_t n)
    {
        guard g(mx.m);
        b.reserve(n);
    }
    [[nodiscard]] bool contains(const K& k) const
    {
        guard g(mx.m);
        return b.find(k) != b.end();
    }
    [[nodiscard]] std::size_t count(const K& k) const
    {
        guard g(mx.m);
        return b.count(k);
    }
    iterator find(const K& k)
    {
        guard g(mx.m);
        return b.find(k);
    }
    const_iterator find(const K& k) const
    {
        guard g(mx.m);
        return b.find(k);
    }
    V& at(const K& k)
    {
        guard g(mx.m);
        return b.at(k);
    }
    const V& at(const K& k) const
    {
        guard g(mx.m);
        return b.at(k);
    }
    V& operator[](const K& k)
    {
        guard g(mx.m);
        return b[k];
    }
    std::pair<iterator, bool> insert(const value_type& v)
    {
        guard g(mx.m);
        return b.insert(v);
    }
    template <typename It>
    void insert(It f, It l)
    {
        guard g(mx.m);
        b.insert(f, l);
    }
    template <typename... Args>
    std::pair<iterator, bool> emplace(Args&&... a)
    {
        guard g(mx.m);
        return b.emplace(std::forward<Args>(a)...);
    }
    template <typename... Args>
    std::pair<iterator, bool> try_emplace(const K& k, Args&&... a)
    {
        guard g(mx.m);
        return b.try_emplace(k, std::forward<Args>(a)...);
    }
    template <typename W>
    std::pair<iterator, bool> insert_or_assign(const K& k, W&& w)
    {
        guard g(mx.m);
        return b.insert_or_assign(k, std::forward<W>(w));
    }
    std::size_t erase(const K& k)
    {
        guard g(mx.m);
        return b.erase(k);
    }
    iterator erase(const_iterator it)
    {
        guard g(mx.m);
        return b.erase(it);
    }
    // ---- phmap's extended API
    template <typename F>
    bool if_contains(const K& k, F&& f) const
    {
        guard      g(mx.m);
        const auto it = b.find(k);
        if (it == b.end())
        {
            return false;
        }
        f(*it);
        return true;
    }
    template <typename F>
    bool modify_if(const K& k, F&& f)
    {
        guard      g(mx.m);
        const auto it = b.find(k);
        if (it == b.end())
        {
            return false;
        }
        f(*it);
        return true;
    }
    template <typename F>
    bool erase_if(const K& k, F&& f)
    {
        guard      g(mx.m);
        const auto it = b.find(k);
        if (it == b.end() || !f(*it))
        {
            return false;
        }
        b.erase(it);
        return true;
    }
    template <typename F, typename... Args>
    bool try_emplace_l(const K& k, F&& f, Args&&... a)
    {
        guard      g(mx.m);
        const auto it = b.find(k);
        if (it == b.end())
        {
            b.try_emplace(k, std::forward<Args>(a)...);
            return true;
        }
        f(*it);
        return false;
    }
    template <typename FE, typename FC>
    bool lazy_emplace_l(const K& k, FE&& f, FC&& c)
    {
        guard      g(mx.m);
        const auto it = b.find(k);
        if (it == b.end())
        {
            c([this](auto&&... args) { b.emplace(std::forward<decltype(args)>(args)...); });
            return true;
        }
        f(*it);
        return false;
    }
    template <typename F>
    void for_each(F&& f) const
    {
        guard g(mx.m);
        for (const auto& e : b)
        {
            f(e);
        }
    }
    friend bool operator==(const parallel_flat_hash_map& l, const parallel_flat_hash_map& r) { return l.b == r.b; }
    friend bool operator!=(const parallel_flat_hash_map& l, const parallel_flat_hash_map& r) { return !(l == r); }
};
template <typename K, typename H = Hash<K>, typename E = std::equal_to<K>, typename A = std::allocator<K>,
          std::size_t N = 4, typename Mutex = NullMutex>
class parallel_flat_hash_set
{
    using B = shim::set_table<K, H, E>;
    B                b{};
    shim::mtx<Mutex> mx{};
    using guard = std::lock_guard<Mutex>;

  public:
    using key_type       = K;
    using value_type     = K;
    using size_type      = std::size_t;
    using iterator       = typename B::const_iterator;
    using const_iterator = typename B::const_iterator;

    parallel_flat_hash_set() = default;
    parallel_flat_hash_set(std::initializer_list<K> il) : b(il) {}
    explicit parallel_flat_hash_set(std::size_t n) : b(n) {}
    template <typename It>
    parallel_flat_hash_set(It f, It l) : b(f, l)
    {}
    const_iterator            begin() const { return b.begin(); }
    const_iterator            end() const { return b.end(); }
    const_iterator            cbegin() const { return b.cbegin(); }
    const_iterator            cend() const { return b.cend(); }
    [[nodiscard]] std::size_t size() const
    {
        guard g(mx.m);
        return b.size();
    }
    [[nodiscard]] bool empty() const
    {
        guard g(mx.m);
        return b.empty();
    }
    void clear()
    {
        guard g(mx.m);
        b.clear();
    }
    void reserve(std::size_t n)
    {
        guard g(mx.m);
        b.reserve(n);
    }
    [[nodiscard]] bool contains(const K& k) const
    {
        guard g(mx.m);
        return b.find(k) != b.end();
    }
    [[nodiscard]] std::size_t count(const K& k) const
    {
        guard g(mx.m);
        return b.count(k);
    }
    const_iterator find(const K& k) const
    {
        guard g(mx.m);
        return b.find(k);
    }
    std::pair<const_iterator, bool> insert(const K& k)
    {
        guard g(mx.m);
        auto  r = b.insert(k);
        return {r.first, r.second};
    }
    template <typename It>
    void insert(It f, It l)
    {
        guard g(mx.m);
        b.insert(f, l);
    }
    template <typename... Args>
    std::pair<const_iterator, bool> emplace(Args&&... a)
    {
        guard g(mx.m);
        auto  r = b.emplace(std::forward<Args>(a)...);
        return {r.first, r.second};
    }
    std::size_t erase(const K& k)
    {
        guard g(mx.m);
        return b.erase(k);
    }
    friend bool operator==(const parallel_flat_hash_set& l, const parallel_flat_hash_set& r) { return l.b == r.b; }
    friend bool operator!=(const parallel_flat_hash_set& l, const parallel_flat_hash_set& r) { return !(l == r); }
};
}  // namespace phmap
