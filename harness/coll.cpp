// Concrete stage for mtv::collection (side-by-side iteration) against arrays of tagged cells.
#include "common.hpp"
#include <variant>
#include <mdds/multi_type_vector/soa/main.hpp>
#include <mdds/multi_type_vector/aos/main.hpp>
#include <mdds/multi_type_vector/collection.hpp>

using hz::fail;
using hz::tape;

namespace {

using cell = std::variant<std::monostate, double, int, bool, std::string>;

std::string str(const cell& x)
{
    std::ostringstream os;
    switch (x.index())
    {
        case 0: os << "-"; break;
        case 1: os << std::get<1>(x) << "d"; break;
        case 2: os << std::get<2>(x) << "i"; break;
        case 3: os << (std::get<3>(x) ? "true" : "false"); break;
        default: os << '"' << std::get<4>(x) << '"';
    }
    return os.str();
}
cell gen(tape& t, uint32_t k)
{
    switch (k)
    {
        case 0: return cell();
        case 1: return cell(t.i(-5, 5) / 2.0);
        case 2: return cell(t.i(-5, 5));
        case 3: return cell(t.b());
        default: return cell(std::string(t.u(3), char('a' + t.u(3))));
    }
}

struct soa_traits : mdds::mtv::default_traits
{
    using block_funcs = mdds::mtv::element_block_funcs<
        mdds::mtv::double_element_block, mdds::mtv::int32_element_block, mdds::mtv::boolean_element_block,
        mdds::mtv::string_element_block>;
};

template<typename M>
struct fixture
{
    using coll = mdds::mtv::collection<M>;
    using model = std::vector<std::vector<cell>>;

    template<typename I>
    static cell read(const I& it)
    {
        switch (it->type)
        {
            case mdds::mtv::element_type_empty: return cell();
            case mdds::mtv::element_type_double: return cell(it->template get<mdds::mtv::double_element_block>());
            case mdds::mtv::element_type_int32: return cell(int(it->template get<mdds::mtv::int32_element_block>()));
            case mdds::mtv::element_type_boolean: return cell(bool(it->template get<mdds::mtv::boolean_element_block>()));
            case mdds::mtv::element_type_string: return cell(it->template get<mdds::mtv::string_element_block>());
            default: fail("unknown type ", it->type);
        }
    }

    static void fill(tape& t, M& m, std::vector<cell>& w, std::size_t idx)
    {
        std::size_t p = 0;
        while (p < w.size())
        {
            uint32_t k = t.u(5);
            std::size_t n = t.chance(1, 2) ? 1 : 1 + t.u(uint32_t(w.size() - p));
            for (std::size_t i = p; i < p + n; ++i)
            {
                cell x = gen(t, k);
                w[i] = x;
                t.op("vector ", idx, " [", i, "] = ", str(x));
                std::visit([&](const auto& v) {
                    if constexpr (!std::is_same_v<std::decay_t<decltype(v)>, std::monostate>)
                        m.set(i, v);
                }, x);
            }
            p += n;
        }
    }

    static void visit(const coll& c, const model& w, std::size_t e0, std::size_t en, std::size_t c0, std::size_t cn)
    {
        auto it = c.begin(), end = c.end();
        for (std::size_t i = e0; i < e0 + en; ++i)
            for (std::size_t j = c0; j < c0 + cn; ++j)
            {
                if (it == end)
                    fail("iteration ends before element ", i, " of vector ", j);
                if (it->position != i || it->index != j)
                    fail("visits element ", it->position, " of vector ", it->index, " expected ", i, " of ", j);
                cell g = read(it);
                if (g != w[j][i])
                    fail("element ", i, " of vector ", j, " is ", str(g), " expected ", str(w[j][i]));
                if ((i + j) % 2)
                    ++it;
                else
                {
                    auto old = it++;
                    if (old == it)
                        fail("it++ does not move");
                    if (old->position != i || old->index != j)
                        fail("it++ gives another element");
                }
            }
        if (it != end)
            fail("iteration does not end after the last element");
        std::size_t n = 0;
        for (const auto& nd : c)
        {
            (void)nd;
            ++n;
        }
        if (n != en * cn)
            fail("visits ", n, " elements, expected ", en * cn);
    }

    static void run(tape& t)
    {
        std::size_t n = 1 + t.u(5), len = 1 + t.u(12);
        model w(n, std::vector<cell>(len));
        std::vector<std::unique_ptr<M>> v;
        t.op("collection of ", n, " x ", len);
        for (std::size_t j = 0; j < n; ++j)
        {
            v.push_back(std::make_unique<M>(len));
            fill(t, *v.back(), w[j], j);
        }
        coll c;
        switch (t.u(4))
        {
            case 0: c = coll(v.begin(), v.end()); break;
            case 1:
            {
                std::vector<const M*> p;
                for (auto& x : v)
                    p.push_back(x.get());
                coll d(p.begin(), p.end());
                c.swap(d);
                break;
            }
            case 2:
            {
                std::vector<M> p;
                for (auto& x : v)
                    p.push_back(*x);
                coll d(p.begin(), p.end());
                visit(d, w, 0, len, 0, n);
                c = coll(v.begin(), v.end());
                break;
            }
            default:
            {
                std::vector<std::shared_ptr<M>> p;
                for (auto& x : v)
                    p.push_back(std::make_shared<M>(*x));
                coll d(p.begin(), p.end());
                visit(d, w, 0, len, 0, n);
                c = coll(v.begin(), v.end());
            }
        }
        if (c.size() != len)
            fail("size is ", c.size(), " expected ", len);
        visit(c, w, 0, len, 0, n);
        std::size_t e0 = 0, en = len, c0 = 0, cn = n;
        for (int k = 0; k < 5; ++k)
        {
            std::size_t s, z;
            bool el = t.b(), ok, thrown = false;
            std::size_t lim = el ? len : n;
            s = t.u(uint32_t(lim + 1));
            z = t.chance(1, 10) ? std::size_t(-1) - t.u(2) : t.u(uint32_t(lim + 2 - std::min(s, lim)));
            ok = s < lim && z > 0 && z <= lim - s;
            t.op(el ? "set_element_range " : "set_collection_range ", s, " ", z);
            try
            {
                if (el)
                    c.set_element_range(s, z);
                else
                    c.set_collection_range(s, z);
            }
            catch (const mdds::invalid_arg_error&)
            {
                thrown = true;
            }
            if (thrown == ok)
                fail(ok ? "a valid range is rejected" : "an invalid range is accepted");
            if (ok)
                (el ? e0 : c0) = s, (el ? en : cn) = z;
            visit(c, w, e0, en, c0, cn);
        }
        if (t.chance(1, 3))
        {
            // a vector of another length, or an empty one
            v.push_back(std::make_unique<M>(t.b() ? 0 : len + 1));
            t.op("a vector of length ", v.back()->size());
            bool thrown = false;
            try
            {
                coll d(v.begin(), v.end());
            }
            catch (const mdds::invalid_arg_error&)
            {
                thrown = true;
            }
            if (!thrown)
                fail("vectors of different lengths are accepted");
            coll e;
            e.swap(c);
            visit(e, w, e0, en, c0, cn);
            if (c.begin() != c.end())
                fail("an empty collection has elements");
        }
        t.hit();
    }
};

} // namespace

int main(int argc, char** argv)
{
    return hz::main_impl(argc, argv, {{"iterate", [](tape& t) {
        t.b() ? fixture<mdds::mtv::soa::multi_type_vector<soa_traits>>::run(t)
              : fixture<mdds::mtv::aos::multi_type_vector<soa_traits>>::run(t);
    }}});
}
