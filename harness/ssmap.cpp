// Concrete stage for sorted_string_map: both reverse-lookup strategies against a linear scan.
#include "common.hpp"
#include <mdds/sorted_string_map.hpp>

using hz::tape;

namespace {

std::string rnd(tape& t, int maxlen)
{
    static const char abc[] = {'\0', 'a', 'b', '\x7f', '\x80', '\xff'};
    int na = t.i(1, 6);
    std::string s;
    for (int n = t.i(0, maxlen); n > 0; --n)
        s += abc[t.u(uint32_t(na))];
    return s;
}

std::string show(std::string_view s)
{
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s)
    {
        snprintf(b, sizeof b, c >= 32 && c < 127 ? "%c" : "\\x%02x", c);
        r += b;
    }
    return r + "\"";
}

template<typename Map, typename V>
void check(tape& t, const std::vector<std::string>& keys, const std::vector<V>& vals, V null_value)
{
    // exactly sized heap copies, so that any read past an end is seen
    std::vector<std::unique_ptr<char[]>> bufs;
    std::vector<typename Map::entry_type> es;
    for (std::size_t i = 0; i < keys.size(); ++i)
    {
        bufs.push_back(std::make_unique<char[]>(keys[i].size()));
        memcpy(bufs.back().get(), keys[i].data(), keys[i].size());
        es.push_back({std::string_view(bufs.back().get(), keys[i].size()), vals[i]});
    }
    es.shrink_to_fit();
    Map m1(std::span<const typename Map::entry_type>(es.data(), es.size()), null_value);
    Map m2(es.data(), es.size(), null_value);
    Map m3(m1);
    std::vector<std::string> q(keys);
    for (int n = t.i(1, 12); n > 0; --n)
    {
        std::string s = rnd(t, 5);
        if (!keys.empty() && t.b())
        {
            s = keys[t.u(uint32_t(keys.size()))];
            switch (t.u(4))
            {
                case 0:
                    s += rnd(t, 2);
                    break;
                case 1:
                    if (!s.empty())
                        s.pop_back();
                    break;
                case 2:
                    if (!s.empty())
                        s.back() = char(s.back() + 1);
                    break;
                default:
                    if (!s.empty())
                        s[t.u(uint32_t(s.size()))] = rnd(t, 1).c_str()[0];
            }
        }
        q.push_back(s);
    }
    for (const Map* m : {&m1, &m2, &m3})
    {
        HZ_CHECK(m->size() == keys.size(), "size");
        for (auto& s : q)
        {
            V e = null_value;
            bool found = false;
            for (std::size_t i = 0; i < keys.size(); ++i)
                if (keys[i] == s)
                    e = vals[i], found = true;
            auto b = std::make_unique<char[]>(s.size());
            memcpy(b.get(), s.data(), s.size());
            const V& r = m->find(std::string_view(b.get(), s.size()));
            HZ_CHECK(r == e, "find(" << show(s) << ") gave " << r << " expected " << e);
            if (found)
                HZ_CHECK(&r >= &es.front().value && &r <= &es.back().value, "found value is not the entry's");
            const V& r2 = m->find(b.get(), s.size());
            HZ_CHECK(r2 == e, "find(ptr,len) of " << show(s) << " gave " << r2 << " expected " << e);
        }
        for (std::size_t i = 0; i < vals.size(); ++i)
        {
            std::string_view k = m->find_key(vals[i]);
            bool ok = false, any_nonempty = false;
            for (std::size_t j = 0; j < vals.size(); ++j)
                if (vals[j] == vals[i])
                {
                    any_nonempty = true;
                    ok = ok || k == keys[j];
                }
            HZ_CHECK(ok || !any_nonempty, "find_key(" << vals[i] << ") gave " << show(k));
        }
    }
    t.hit();
}

template<typename Map>
void run_int(tape& t)
{
    std::set<std::string> s;
    int n = t.chance(1, 6) ? t.i(0, 60) : t.i(0, 9);
    for (; n > 0; --n)
        s.insert(rnd(t, t.chance(1, 5) ? 9 : 3));
    std::vector<std::string> keys(s.begin(), s.end());
    std::vector<int> vals;
    int nv = t.i(1, 30);
    bool distinct = t.b();
    for (std::size_t i = 0; i < keys.size(); ++i)
        vals.push_back(distinct ? int(i) : t.i(0, nv));
    t.op("table of ", keys.size());
    for (std::size_t i = 0; i < keys.size(); ++i)
        t.op(show(keys[i]), " -> ", vals[i]);
    int nul = t.b() ? -1 : t.i(-1, nv);
    check<Map, int>(t, keys, vals, nul);
    Map m(std::span<const typename Map::entry_type>(), nul);
    HZ_CHECK(m.size() == 0 && m.find("") == nul && m.find("a") == nul && m.find_key(3).empty(), "empty map");
    // absent values
    std::vector<typename Map::entry_type> es;
    for (std::size_t i = 0; i < keys.size(); ++i)
        es.push_back({keys[i], vals[i]});
    Map m4(es, nul);
    for (int v = -2; v < 70; ++v)
        if (std::find(vals.begin(), vals.end(), v) == vals.end())
            HZ_CHECK(m4.find_key(v).empty(), "find_key of the absent value " << v << " gave " << show(m4.find_key(v)));
}

template<typename Map>
void run_str(tape& t)
{
    std::set<std::string> s;
    for (int n = t.i(0, 9); n > 0; --n)
        s.insert(rnd(t, 3));
    std::vector<std::string> keys(s.begin(), s.end()), vals;
    for (std::size_t i = 0; i < keys.size(); ++i)
        vals.push_back("v" + rnd(t, 2));
    t.op("table of ", keys.size());
    check<Map, std::string>(t, keys, vals, "none");
}

void c_lookup(tape& t)
{
    switch (t.u(4))
    {
        case 0:
            return run_int<mdds::sorted_string_map<int>>(t);
        case 1:
            return run_int<mdds::sorted_string_map<int, mdds::ssmap::hash_key_finder>>(t);
        case 2:
            return run_str<mdds::sorted_string_map<std::string>>(t);
        default:
            return run_str<mdds::sorted_string_map<std::string, mdds::ssmap::hash_key_finder>>(t);
    }
}

} // namespace

int main(int argc, char** argv)
{
    return hz::main_impl(argc, argv, {{"lookup", c_lookup}});
}
