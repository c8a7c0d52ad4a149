// J02: the order, equality and hash of JSON values.
#include "json_common.hpp"
#include "quiet.hpp"

#include <algorithm>
#include <set>
#include <unordered_map>
#include <unordered_set>

namespace {

static_assert(std::numeric_limits<long double>::digits >= 64, "integers are compared as long double");

bool number(MV const &m)
{
    return m.k >= MV::Int;
}
long double value_of(MV const &m)
{
    return m.k == MV::Int ? static_cast<long double>(m.i) : m.k == MV::Uint ? static_cast<long double>(m.u) : m.f;
}

// -1, 0 or 1. Values of different types are ordered however the library orders them; that this is
// consistent is checked over triples.
int compare(MV const &a, MV const &b)
{
    auto three = [](auto const &x, auto const &y) { return x < y ? -1 : y < x ? 1 : 0; };
    if (number(a) && number(b))
        return three(value_of(a), value_of(b));
    if (a.k != b.k)
        return ref::make(a) < ref::make(b) ? -1 : 1;
    switch (a.k)
    {
        case MV::Null: return 0;
        case MV::Str:
        {
            auto const n = std::min(a.s.size(), b.s.size());
            int const c = std::memcmp(a.s.data(), b.s.data(), n);
            return c != 0 ? (c < 0 ? -1 : 1) : three(a.s.size(), b.s.size());
        }
        case MV::Bool: return three(a.b, b.b);
        case MV::Arr:
            for (std::size_t k = 0; k < a.a.size() && k < b.a.size(); ++k)
                if (int const c = compare(a.a[k], b.a[k]); c != 0)
                    return c;
            return three(a.a.size(), b.a.size());
        default:
        {
            auto x = a.o.begin();
            auto y = b.o.begin();
            for (; x != a.o.end() && y != b.o.end(); ++x, ++y)
            {
                if (int const c = compare(MV::str(x->first), MV::str(y->first)); c != 0)
                    return c;
                if (int const c = compare(x->second, y->second); c != 0)
                    return c;
            }
            return three(a.o.size(), b.o.size());
        }
    }
}

// A number close to x in value, of any type.
MV near(pbt::Src &s, long double x)
{
    switch (s.below(8))
    {
        case 0: x += 1; break;
        case 1: x -= 1; break;
        case 2: x = -x; break;
        case 3: x += std::ldexp(1.0L, static_cast<int>(s.range(-70, 2))); break;
        case 4: x = std::nextafter(x, s.flip() ? HUGE_VALL : -HUGE_VALL); break;
        default: break;
    }
    bool const integer = std::floor(x) == x;
    MV m = MV::real(x);
    if (integer && x >= -0x1p63L && x < 0x1p63L && s.chance(1, 2))
        m = MV::integer(static_cast<std::int64_t>(x));
    else if (integer && x >= 0 && x < 0x1p64L && s.chance(2, 3))
        m = MV::natural(static_cast<std::uint64_t>(x));
    else if (s.chance(1, 4))
    {
        // the same bits in the other integer type
        if (x >= -0x1p63L && x < 0 && integer)
            m = MV::natural(static_cast<std::uint64_t>(static_cast<std::int64_t>(x)));
        else if (x >= 0x1p63L && x < 0x1p64L && integer)
            m = MV::integer(static_cast<std::int64_t>(static_cast<std::uint64_t>(x)));
    }
    return m;
}

MV similar(pbt::Src &s, MV const &m, unsigned depth)
{
    if (number(m))
        return s.chance(1, 20) ? gen::scalar(s) : near(s, value_of(m));
    switch (m.k)
    {
        case MV::Str:
        {
            MV r = m;
            switch (s.below(5))
            {
                case 0: r.s += gen::key(s); break;
                case 1: r = MV::str(gen::json_text(s, 4)); break;
                case 2: if (!r.s.empty() && static_cast<unsigned char>(r.s.back()) < 0x7e) ++r.s.back(); break;
                case 3: if (!r.s.empty() && static_cast<unsigned char>(r.s.back()) < 0x80) r.s.pop_back(); break;
                default: break;
            }
            return r;
        }
        case MV::Bool: return s.chance(1, 3) ? MV::integer(m.b) : MV::boolean(m.b != s.chance(1, 3));
        case MV::Null: return s.chance(1, 2) ? gen::scalar(s) : m;
        case MV::Arr:
        {
            MV r = m;
            if (!r.a.empty())
            {
                auto &e = r.a[s.below(r.a.size())];
                e = similar(s, e, depth + 1);
            }
            if (s.chance(1, 4))
                r.a.push_back(gen::scalar(s));
            else if (s.chance(1, 4) && !r.a.empty())
                r.a.pop_back();
            return r;
        }
        default:
        {
            MV r = m;
            if (!r.o.empty())
            {
                auto it = std::next(r.o.begin(), static_cast<std::ptrdiff_t>(s.below(r.o.size())));
                it->second = similar(s, it->second, depth + 1);
                if (s.chance(1, 6))
                {
                    MV v = it->second;
                    r.o.erase(it);
                    r.o[gen::key(s)] = v;
                }
            }
            if (s.chance(1, 5))
                r.o[gen::key(s)] = gen::scalar(s);
            return r;
        }
    }
}

// The same value as ref::make's, with another history.
fly::Json made_otherwise(pbt::Src &s, MV const &m)
{
    fly::Json j;
    switch (m.k)
    {
        case MV::Arr:
        {
            j = fly::json_array_type();
            if (s.flip())
                j.reserve(s.below(2 * m.a.size() + 20));
            std::size_t const extra = s.below(3);
            for (std::size_t k = 0; k < extra; ++k)
                j.insert(j.begin(), fly::Json(k));
            for (auto const &e : m.a)
            {
                j.push_back(made_otherwise(s, e));
                if (s.chance(1, 6))
                {
                    j.push_back(nullptr);
                    j.pop_back();
                }
            }
            for (std::size_t k = 0; k < extra; ++k)
                j.erase(j.begin());
            break;
        }
        case MV::Obj:
        {
            j = fly::json_object_type();
            std::vector<std::pair<std::string, MV>> members(m.o.begin(), m.o.end());
            if (s.flip())
                std::reverse(members.begin(), members.end());
            for (auto const &[k, v] : members)
            {
                std::string const key = ref::json_escape(k);
                if (s.chance(1, 6))
                    j[key] = s.flip() ? fly::Json(1) : fly::Json();
                if (s.chance(1, 6) && !m.o.contains(k + "!"))
                {
                    j[key + "!"] = 1;
                    j.erase(key + "!");
                }
                j[key] = made_otherwise(s, v);
            }
            break;
        }
        case MV::Str:
            j = ref::make(m);
            j.reserve(s.below(2 * m.s.size() + 40));
            break;
        default:
            j = s.flip() ? fly::Json("text") : fly::Json(fly::json_array_type {1, 2});
            j = ref::make(m);
            break;
    }
    return j;
}

bool finite(MV const &m)
{
    if (m.k == MV::Flt)
        return !std::isnan(m.f);
    for (auto const &e : m.a)
        if (!finite(e))
            return false;
    for (auto const &[k, v] : m.o)
        if (!finite(v))
            return false;
    return true;
}

void laws(pbt::Src &s)
{
    std::size_t const n = 2 + s.below(5);
    std::vector<MV> m;
    std::vector<fly::Json> j;
    MV const base = s.chance(1, 2) ? gen::scalar(s) : gen::value(s, 3, 3);
    for (std::size_t k = 0; k < n; ++k)
    {
        MV const &from = m.empty() || s.chance(1, 3) ? base : m[s.below(m.size())];
        MV v = k == 0 ? base : s.chance(1, 12) ? gen::value(s, 1, 3) : similar(s, from, 0);
        if (!finite(v))
            v = MV();
        m.push_back(v);
        j.push_back(s.chance(1, 3) ? made_otherwise(s, v) : ref::make(v));
        if (s.want_note())
            s.note(ref::show(v));
    }
    std::hash<fly::Json> const hash {};
    std::size_t classes = 0;
    bool equal_pair = false;
    for (std::size_t a = 0; a < n; ++a)
    {
        PBT_CHECK(j[a] == j[a] && !(j[a] < j[a]), "%s is not equal to itself", ref::show(m[a]).c_str());
        bool fresh = true;
        for (std::size_t b = 0; b < n; ++b)
        {
            int const c = compare(m[a], m[b]);
            if (b < a && c == 0)
                fresh = false;
            std::string const names = ref::show(m[a]) + " and " + ref::show(m[b]);
            PBT_CHECK((j[a] == j[b]) == (c == 0), "%s: == is %d, order is %d", names.c_str(), j[a] == j[b], c);
            PBT_CHECK((j[a] != j[b]) == (c != 0), "%s: != is %d, order is %d", names.c_str(), j[a] != j[b], c);
            PBT_CHECK((j[a] < j[b]) == (c < 0), "%s: < is %d, order is %d", names.c_str(), j[a] < j[b], c);
            PBT_CHECK((j[a] <= j[b]) == (c <= 0), "%s: <= is %d, order is %d", names.c_str(), j[a] <= j[b], c);
            PBT_CHECK((j[a] > j[b]) == (c > 0), "%s: > is %d, order is %d", names.c_str(), j[a] > j[b], c);
            PBT_CHECK((j[a] >= j[b]) == (c >= 0), "%s: >= is %d, order is %d", names.c_str(), j[a] >= j[b], c);
            if (c == 0)
            {
                PBT_CHECK(hash(j[a]) == hash(j[b]), "%s are equal but hash differently", names.c_str());
                equal_pair = equal_pair || (a != b && m[a].k != m[b].k);
            }
            for (std::size_t d = 0; d < n; ++d)
            {
                if (j[a] < j[b] && j[b] < j[d])
                    PBT_CHECK(j[a] < j[d], "not transitive: %s, %s", names.c_str(), ref::show(m[d]).c_str());
                if (j[a] == j[b] && j[b] == j[d])
                    PBT_CHECK(j[a] == j[d], "equality not transitive: %s, %s", names.c_str(), ref::show(m[d]).c_str());
            }
        }
        classes += fresh;
    }
    std::unordered_set<fly::Json> const hashed(j.begin(), j.end());
    std::set<fly::Json> const ordered(j.begin(), j.end());
    std::unordered_map<fly::Json, int> counts;
    for (auto const &v : j)
        ++counts[v];
    PBT_CHECK(hashed.size() == classes && counts.size() == classes, "hash containers of %zu and %zu, expected %zu", hashed.size(), counts.size(), classes);
    PBT_CHECK(ordered.size() == classes, "set of %zu, expected %zu", ordered.size(), classes);
    for (auto const &v : j)
        PBT_CHECK(hashed.contains(v) && ordered.contains(v) && counts.contains(v), "not found in a container: %s", v.serialize().c_str());
    auto sorted = j;
    std::sort(sorted.begin(), sorted.end());
    for (std::size_t k = 1; k < n; ++k)
        PBT_CHECK(sorted[k - 1] <= sorted[k], "sorting does not order");
    if (classes < n)
        s.label("equal values");
    if (equal_pair)
        s.label("equal values of different numeric types");
    s.nontrivial();
}

} // namespace

int main(int argc, char **argv)
{
    quiet_logger();
    return pbt::main(argc, argv, {"J02",
        "Groups of 2 to 6 values (scalars or nested), each derived from another by changes that keep it close: numbers equal in another type, one apart, one bit apart, negated, the same 64 bits with the other signedness; strings extended or shortened by a character; arrays and objects with one element changed, added or removed, keys renamed. Every pair is compared with all six operators against the model order, every triple for transitivity, equal values must hash equally, one value in three is built up in steps (reserved, inserted and erased again, in another order) rather than at once, and std::set, std::unordered_set, std::unordered_map and std::sort must agree with the model's classes. Non-trivial: every group.",
        {{"laws", laws, 250000, 10000000}}, {}, {"NaN is excluded", "how values of different (non-numeric) types are ordered is left open; only that it is an order"}});
}
