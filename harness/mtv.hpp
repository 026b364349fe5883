// Shared by the multi_type_vector stages: element kinds, containers under test and their plain model.
#pragma once
#include "common.hpp"
#include <mdds/multi_type_vector/soa/main.hpp>
#include <mdds/multi_type_vector/aos/main.hpp>
#include <mdds/multi_type_vector/macro.hpp>
#include <mdds/multi_type_vector/standard_element_blocks.hpp>
#include <deque>

namespace mv {

using hz::tape;
namespace mtv = mdds::mtv;

// objects owned by managed blocks; the set of live ones is known exactly
struct obj
{
    static std::set<const obj*>& live()
    {
        static std::set<const obj*> s;
        return s;
    }
    int v;
    explicit obj(int _v) : v(_v)
    {
        live().insert(this);
    }
    obj(const obj& r) : v(r.v)
    {
        live().insert(this);
    }
    ~obj()
    {
        if (!live().erase(this))
        {
            fprintf(stderr, "object destroyed twice\n");
            abort();
        }
    }
    bool operator==(const obj& r) const
    {
        return v == r.v;
    }
};
// the same in non-copyable managed blocks
struct nobj : obj
{
    using obj::obj;
};

enum kind
{
    k_empty,
    k_int,
    k_bool,
    k_str,
    k_obj,
    k_nobj,
    k_max
};

constexpr mtv::element_t t_obj = mtv::element_type_user_start, t_nobj = t_obj + 1;
using obj_block = mtv::managed_element_block<t_obj, obj>;
using nobj_block = mtv::noncopyable_managed_element_block<t_nobj, nobj>;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(obj, t_obj, nullptr, obj_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(nobj, t_nobj, nullptr, nobj_block)

// event handler: how many blocks it has been told of (some functions exchange a block for a shorter one of the same type
// without events, on purpose, so the identity of the blocks says nothing)
struct events
{
    long held = 0;
    bool bad = false;
    events() = default;
    events(const events&)
    {}
    events(events&& r) : held(std::exchange(r.held, 0)), bad(r.bad)
    {}
    events& operator=(events&& r)
    {
        held = std::exchange(r.held, 0);
        bad = r.bad;
        return *this;
    }
    events& operator=(const events&) = delete;
    void element_block_acquired(const mtv::base_element_block* b)
    {
        ++held;
        if (!b)
            bad = true;
    }
    void element_block_released(const mtv::base_element_block* b)
    {
        if (--held < 0 || !b)
            bad = true;
    }
};

template<bool Cow, mtv::lu_factor_t LU, bool NC>
struct traits : mtv::default_traits
{
    using event_func = events;
    static constexpr mtv::lu_factor_t loop_unrolling = LU;
    static constexpr bool enable_cow = Cow;
    static constexpr bool noncopyable = NC;
    using block_funcs = std::conditional_t<
        NC, mtv::element_block_funcs<mtv::int32_element_block, mtv::boolean_element_block, mtv::string_element_block, nobj_block>,
        mtv::element_block_funcs<mtv::int32_element_block, mtv::boolean_element_block, mtv::string_element_block, obj_block>>;
};

template<typename Tr>
using soa = mtv::soa::multi_type_vector<Tr>;
template<typename Tr>
using aos = mtv::aos::multi_type_vector<Tr>;

template<typename C>
struct info;
template<template<typename> class V, bool Cow, mtv::lu_factor_t LU, bool NC>
struct info<V<traits<Cow, LU, NC>>>
{
    static constexpr bool cow = Cow, nc = NC;
    using tr = traits<Cow, LU, NC>;
    static constexpr bool is_soa = std::is_same_v<V<tr>, soa<tr>>;
};

struct el
{
    int k = k_empty;
    int v = 0;
    const void* p = nullptr; // identity of an owned object
    bool same(const el& r) const
    {
        return k == r.k && v == r.v;
    }
};
inline std::ostream& operator<<(std::ostream& os, const el& e)
{
    static const char* n[] = {"_", "i", "b", "s", "o", "n"};
    os << n[e.k];
    if (e.k)
        os << e.v;
    return os;
}
inline std::ostream& operator<<(std::ostream& os, const std::vector<el>& v)
{
    os << "[";
    for (auto& e : v)
        os << e << " ";
    return os << "]";
}

inline std::string str_of(int v)
{
    return v == 0 ? std::string() : "string number " + std::to_string(v);
}
inline mtv::element_t type_of(int k)
{
    switch (k)
    {
        case k_empty:
            return mtv::element_type_empty;
        case k_int:
            return mtv::element_type_int32;
        case k_bool:
            return mtv::element_type_boolean;
        case k_str:
            return mtv::element_type_string;
        case k_obj:
            return t_obj;
        default:
            return t_nobj;
    }
}

// calls f with a value of the C++ type of the kind
template<typename C, typename F>
void with(const el& e, F f)
{
    switch (e.k)
    {
        case k_int:
            f(int32_t(e.v));
            break;
        case k_bool:
            f(bool(e.v));
            break;
        case k_str:
            f(str_of(e.v));
            break;
        case k_obj:
            if constexpr (!info<C>::nc)
                f((obj*)e.p);
            break;
        case k_nobj:
            if constexpr (info<C>::nc)
                f((nobj*)e.p);
            break;
        default:
            break;
    }
}

template<typename C>
el fresh(int k, int v)
{
    el e;
    e.k = k;
    e.v = k == k_bool ? (v & 1) : k == k_empty ? 0 : v;
    if (k == k_obj)
        e.p = new obj(v);
    if (k == k_nobj)
        e.p = new nobj(v);
    return e;
}

template<typename C>
el read(const C& c, std::size_t i)
{
    el e;
    auto ty = c.get_type(i);
    switch (ty)
    {
        case mtv::element_type_empty:
        {
            e.k = k_empty;
            // default value of an empty element
            HZ_CHECK(c.template get<int32_t>(i) == 0, "an empty element does not read as the default value");
            break;
        }
        case mtv::element_type_int32:
            e.k = k_int;
            e.v = c.template get<int32_t>(i);
            break;
        case mtv::element_type_boolean:
            e.k = k_bool;
            e.v = c.template get<bool>(i);
            break;
        case mtv::element_type_string:
        {
            e.k = k_str;
            std::string s = c.template get<std::string>(i);
            e.v = s.empty() ? 0 : -1;
            if (s.substr(0, 14) == "string number ")
                e.v = std::stoi(s.substr(14));
            std::string s2;
            c.get(i, s2);
            HZ_CHECK(s == s2, "the two forms of get differ");
            break;
        }
        case t_obj:
            if constexpr (!info<C>::nc)
            {
                e.k = k_obj;
                e.p = c.template get<obj*>(i);
                HZ_CHECK(obj::live().count((const obj*)e.p), "element " << i << " points to a destroyed object");
                e.v = ((const obj*)e.p)->v;
            }
            break;
        case t_nobj:
            if constexpr (info<C>::nc)
            {
                e.k = k_nobj;
                e.p = c.template get<nobj*>(i);
                HZ_CHECK(obj::live().count((const nobj*)e.p), "element " << i << " points to a destroyed object");
                e.v = ((const nobj*)e.p)->v;
            }
            break;
        default:
            HZ_CHECK(false, "unknown type " << ty << " of element " << i);
    }
    return e;
}

template<typename C>
struct box
{
    using bf = typename info<C>::tr::block_funcs;
    static constexpr bool cow = info<C>::cow;
    C c;
    std::vector<el> m;

    struct blk
    {
        int k;
        std::size_t pos, size;
    };
    std::vector<blk> blocks() const
    {
        std::vector<blk> r;
        for (std::size_t i = 0; i < m.size(); ++i)
        {
            if (r.empty() || r.back().k != m[i].k)
                r.push_back({m[i].k, i, 0});
            r.back().size++;
        }
        return r;
    }

    template<typename It>
    static void check_node(const It& it, const blk& b, const char* what)
    {
        HZ_CHECK(it->type == type_of(b.k), what << ": block type " << it->type << " expected " << type_of(b.k));
        HZ_CHECK(it->size == b.size, what << ": block size " << it->size << " expected " << b.size);
        HZ_CHECK((it->data == nullptr) == (b.k == k_empty), what << ": block data of an " << (b.k ? "element" : "empty") << " block");
        if (it->data)
        {
            HZ_CHECK(bf::size(*it->data) == b.size, what << ": element block holds " << bf::size(*it->data) << " elements, expected " << b.size);
            HZ_CHECK(mtv::get_block_type(*it->data) == it->type, what << ": type of the element block");
        }
    }

    void check(const char* what) const
    {
        HZ_CHECK(c.size() == m.size(), what << ": size " << c.size() << " expected " << m.size());
        HZ_CHECK(c.empty() == m.empty(), what << ": empty");
        for (std::size_t i = 0; i < m.size(); ++i)
        {
            el e = read(c, i);
            HZ_CHECK(e.same(m[i]), what << ": element " << i << " reads " << e << " expected " << m[i] << " in " << m);
            HZ_CHECK(c.is_empty(i) == (m[i].k == k_empty), what << ": is_empty(" << i << ")");
            if (!cow && m[i].p)
                HZ_CHECK(e.p == m[i].p, what << ": element " << i << " holds another object");
        }
        auto bs = blocks();
        HZ_CHECK(c.block_size() == bs.size(), what << ": " << c.block_size() << " blocks, expected " << bs.size() << " for " << m);
        std::size_t n = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++n)
        {
            HZ_CHECK(n < bs.size(), what << ": iteration runs past the blocks");
            check_node(it, bs[n], what);
            HZ_CHECK(it->position == bs[n].pos, what << ": block position " << it->position << " expected " << bs[n].pos);
            HZ_CHECK(it->__private_data.block_index == n, what << ": block index");
        }
        HZ_CHECK(n == bs.size(), what << ": iteration ends early");
        for (auto it = c.end(); n > 0;)
        {
            --it, --n;
            check_node(it, bs[n], what);
            HZ_CHECK(it->position == bs[n].pos, what << ": backwards, block position " << it->position << " expected " << bs[n].pos);
            HZ_CHECK(it->__private_data.block_index == n, what << ": backwards, block index");
        }
        n = bs.size();
        for (auto it = c.rbegin(); it != c.rend(); ++it)
        {
            HZ_CHECK(n > 0, what << ": reverse iteration runs past the blocks");
            --n;
            check_node(it, bs[n], what);
            HZ_CHECK(it->position == bs[n].pos, what << ": reverse, block position");
        }
        HZ_CHECK(n == 0, what << ": reverse iteration ends early");
        // events
        const auto& h = c.event_handler();
        HZ_CHECK(!h.bad, what << ": more blocks released than acquired, or an event without a block");
        long ne = 0;
        for (auto it = c.begin(); it != c.end(); ++it)
            ne += it->data != nullptr;
        HZ_CHECK(h.held == ne, what << ": " << h.held << " element blocks acquired and not released, " << ne << " in use");
    }

    // positions of every index, plain and with hints
    template<typename K>
    static void check_positions(K& c, const std::vector<blk>& bs, std::size_t total, tape& t, const char* what)
    {
        std::size_t nb = bs.size();
        auto at = [&](std::size_t i) {
            auto it = c.begin();
            for (; i > 0; --i)
                ++it;
            return it;
        };
        for (std::size_t b = 0; b < nb; ++b)
            for (std::size_t o : {std::size_t(0), bs[b].size / 2, bs[b].size - 1})
            {
                std::size_t i = bs[b].pos + o;
                auto chk = [&](const auto& p, const char* w) {
                    HZ_CHECK(p.second == o && p.first->position == bs[b].pos && p.first->size == bs[b].size && p.first->__private_data.block_index == b,
                        what << ": " << w << " of " << i << " is block " << p.first->__private_data.block_index << " at " << p.first->position << " offset " << p.second << ", expected block " << b << " offset " << o);
                    HZ_CHECK(std::remove_const_t<K>::logical_position(p) == i, what << ": logical_position of " << i);
                };
                chk(c.position(i), "position");
                auto hint = at(t.u(uint32_t(nb + 1)));
                auto p = c.position(hint, i);
                chk(p, "position with hint");
                auto q = std::remove_const_t<K>::next_position(p);
                if (i + 1 < total)
                    HZ_CHECK(std::remove_const_t<K>::logical_position(q) == i + 1 && q.second < q.first->size, what << ": next_position of " << i);
                else
                    HZ_CHECK(q.first == c.end() && q.second == 0, what << ": next_position of the last element");
                int to = t.i(0, int(total) - 1);
                auto a = std::remove_const_t<K>::advance_position(p, to - int(i));
                HZ_CHECK(std::remove_const_t<K>::logical_position(a) == std::size_t(to) && a.second < a.first->size, what << ": advance_position from " << i << " to " << to);
                // iterating on from the position
                auto it = p.first;
                std::size_t n = b;
                for (; it != c.end(); ++it, ++n)
                    HZ_CHECK(n < nb && it->position == bs[n].pos, what << ": iteration from a position");
                HZ_CHECK(n == nb, what << ": iteration from a position ends early");
            }
        auto e = c.position(total);
        HZ_CHECK(e.first == c.end() && e.second == 0, what << ": position of the end");
        if (nb)
        {
            auto e2 = c.position(at(t.u(uint32_t(nb))), total);
            HZ_CHECK(e2.first == c.end() && e2.second == 0, what << ": position of the end, with hint");
        }
    }
    void check_positions(tape& t, const char* what)
    {
        auto bs = blocks();
        check_positions<const C>(c, bs, m.size(), t, what);
        if constexpr (!cow)
            check_positions<C>(c, bs, m.size(), t, what);
    }

    // the iterator returned by an operation: the block holding element pos, or the end
    template<typename It>
    void check_ret(const It& it, std::size_t pos, bool end, const char* what)
    {
        const C& cc = c;
        if (end)
        {
            HZ_CHECK(it == cc.end() || !(it != cc.end()), what << ": returned position is not the end");
            return;
        }
        auto bs = blocks();
        std::size_t b = 0;
        while (b + 1 < bs.size() && bs[b + 1].pos <= pos)
            ++b;
        HZ_CHECK(it->position == bs[b].pos && it->size == bs[b].size && it->type == type_of(bs[b].k) && it->__private_data.block_index == b,
            what << ": returned iterator is block " << it->__private_data.block_index << " position " << it->position << " size " << it->size << " type " << it->type << ", expected block " << b << " position " << bs[b].pos << " size " << bs[b].size);
        check_node(it, bs[b], what);
        auto i2 = it;
        std::size_t n = b;
        for (; i2 != cc.end(); ++i2, ++n)
            HZ_CHECK(n < bs.size() && i2->position == bs[n].pos, what << ": iterating on from the returned iterator");
        HZ_CHECK(n == bs.size(), what << ": iterating on from the returned iterator ends early");
    }
};

// what the test owns besides the containers
struct held
{
    std::vector<el> objs;
    ~held()
    {
        for (auto& e : objs)
            if (e.k == k_obj)
                delete (obj*)e.p;
            else
                delete (nobj*)e.p;
    }
    void add(const el& e)
    {
        if (e.p)
            objs.push_back(e);
    }
};

} // namespace mv

namespace mdds { namespace mtv {
template<>
struct clone_value<mv::nobj*>
{
    mv::nobj* operator()(const mv::nobj* p) const
    {
        return new mv::nobj(*p);
    }
};
}} // namespace mdds::mtv
