#include "j01_json.hpp"

#include <unordered_map>

namespace j01 {

namespace {

void expect_at(fly::Json::iterator it, fly::Json const &j, MV const &m, std::size_t index, char const *what)
{
    // 'it' must be the position 'index' of j
    fly::Json::const_iterator want = j.begin();
    for (std::size_t k = 0; k < index; ++k)
        ++want;
    PBT_CHECK(fly::Json::const_iterator(it) == want, "%s: wrong position returned, expected %zu", what, index);
    if (index < m.size())
    {
        auto const &e = m.k == MV::Arr ? m.a[index] : std::next(m.o.begin(), static_cast<std::ptrdiff_t>(index))->second;
        auto const d = ref::diff(*it, e);
        PBT_CHECK(d.empty(), "%s: returned position: %s", what, d.c_str());
    }
}

std::size_t index_of(MV const &m, std::string const &key)
{
    return static_cast<std::size_t>(std::distance(m.o.begin(), m.o.find(key)));
}

fly::Json::const_iterator position(fly::Json &j, MV const &m, std::size_t index)
{
    if (m.k != MV::Arr && m.k != MV::Obj)
        return {};
    fly::Json::const_iterator it = j.begin();
    for (std::size_t k = 0; k < index; ++k)
        ++it;
    return it;
}

} // namespace

char const *op_object(World &w, pbt::Src &s)
{
    Node const n = any_node(w, s, MV::Obj);
    bool const object = n.m->k == MV::Obj, null = n.m->k == MV::Null;
    std::string const key = gen::key(s), escaped = ref::json_escape(key);
    switch (s.below(9))
    {
        case 0:
        case 1:
        {
            MV const m = argument(w, s);
            bool const rvalue = s.flip();
            attempt("insert(key)", !object, [&] {
                fly::Json value = ref::make(m);
                auto r = rvalue ? n.j->insert(escaped, std::move(value)) : n.j->insert(escaped, value);
                bool const inserted = n.m->o.emplace(key, m).second;
                PBT_CHECK(r.second == inserted, "insert(key) returned %d", r.second);
                expect_at(r.first, *n.j, *n.m, index_of(*n.m, key), "insert(key)");
                if (!rvalue)
                    PBT_CHECK(ref::diff(value, m).empty(), "insert(key) changed its argument");
            });
            return "insert(key)";
        }
        case 2:
        {
            MV const m = argument(w, s);
            attempt("insert_or_assign", !object, [&] {
                auto r = n.j->insert_or_assign(escaped, ref::make(m));
                bool const inserted = n.m->o.insert_or_assign(key, m).second;
                PBT_CHECK(r.second == inserted, "insert_or_assign returned %d", r.second);
                expect_at(r.first, *n.j, *n.m, index_of(*n.m, key), "insert_or_assign");
            });
            return "insert_or_assign";
        }
        case 3:
        {
            MV const m = argument(w, s);
            attempt("emplace(key)", !object && !null, [&] {
                auto r = n.j->emplace(escaped, ref::make(m));
                if (null)
                    *n.m = MV::obj();
                bool const inserted = n.m->o.emplace(key, m).second;
                PBT_CHECK(r.second == inserted, "emplace returned %d", r.second);
                expect_at(r.first, *n.j, *n.m, index_of(*n.m, key), "emplace");
            });
            return "emplace(key)";
        }
        case 4:
        {
            // a range of another object
            Node const o = any_node(w, s, MV::Obj);
            if (o.contains(n) || n.contains(o))
                return "nothing";
            bool const from = o.m->k == MV::Obj;
            if (o.m->k != MV::Obj && o.m->k != MV::Arr)
                return "nothing";
            std::size_t const first = s.below(o.m->size() + 1), last = first + s.below(o.m->size() - first + 1);
            attempt("insert(object range)", !object || !from, [&] {
                n.j->insert(position(*o.j, *o.m, first), position(*o.j, *o.m, last));
                auto b = std::next(o.m->o.begin(), static_cast<std::ptrdiff_t>(first)), e = std::next(o.m->o.begin(), static_cast<std::ptrdiff_t>(last));
                n.m->o.insert(b, e);
            });
            return "insert(object range)";
        }
        case 5:
        {
            // iterators of different values, or of none
            Node const o = any_node(w, s, MV::Obj);
            if (o.j == n.j || (o.m->k != MV::Obj && o.m->k != MV::Arr) || !object)
                return "nothing";
            attempt("insert(mixed range)", true, [&] { n.j->insert(n.j->begin(), o.j->end()); });
            attempt("insert(no range)", true, [&] { n.j->insert(fly::Json::const_iterator(), fly::Json::const_iterator()); });
            return "insert(mixed range)";
        }
        case 6:
        {
            Node const o = any_node(w, s, MV::Obj);
            if ((o.contains(n) || n.contains(o)) && !(o.j == n.j && object))
                return "nothing";
            bool const rvalue = s.flip() && o.j != n.j;
            bool const ok = (object || null) && o.m->k == MV::Obj;
            if (rvalue)
            {
                fly::Json other(*o.j);
                attempt("merge(value&&)", !ok, [&] { n.j->merge(std::move(other)); });
                if (ok)
                {
                    if (null)
                        *n.m = MV::obj();
                    n.m->o.insert(o.m->o.begin(), o.m->o.end());
                }
                return "merge(value&&)";
            }
            attempt("merge(value&)", !ok, [&] { n.j->merge(*o.j); });
            if (ok && o.j != n.j)
            {
                if (null)
                    *n.m = MV::obj();
                n.m->o.merge(o.m->o);
            }
            return "merge(value&)";
        }
        default:
        {
            MV m = MV::obj();
            for (std::size_t k = s.below(4); k > 0; --k)
                m.o[gen::key(s)] = gen::value(s, 1, 3);
            bool const ok = object || null;
            auto run = [&](auto other, bool rvalue) {
                for (auto const &[k, v] : m.o)
                    other.emplace(ref::json_escape(k), ref::make(v));
                auto const before = other;
                if (rvalue)
                    attempt("merge(map&&)", !ok, [&] { n.j->merge(std::move(other)); });
                else
                    attempt("merge(map&)", !ok, [&] { n.j->merge(other); });
                if (!ok)
                {
                    if (!rvalue)
                        PBT_CHECK(other == before, "failed merge changed the map");
                    return;
                }
                if (null)
                    *n.m = MV::obj();
                MV rest = m;
                n.m->o.merge(rest.o);
                if (!rvalue)
                {
                    PBT_CHECK(other.size() == rest.o.size(), "merge left %zu elements, expected %zu", other.size(), rest.o.size());
                    for (auto const &[k, v] : rest.o)
                    {
                        auto it = other.find(ref::json_escape(k));
                        PBT_CHECK(it != other.end() && ref::diff(it->second, v).empty(), "merge lost %s", pbt::show(k).c_str());
                    }
                }
            };
            bool const rvalue = s.flip();
            if (s.flip())
                run(std::map<std::string, fly::Json>(), rvalue);
            else
                run(std::unordered_map<std::string, fly::Json>(), rvalue);
            return "merge(map)";
        }
    }
}

char const *op_array(World &w, pbt::Src &s)
{
    Node const n = any_node(w, s, MV::Arr);
    bool const array = n.m->k == MV::Arr, null = n.m->k == MV::Null;
    if (array && n.m->size() > max_size)
    {
        n.j->clear();
        n.m->a.clear();
        return "clear";
    }
    switch (s.below(10))
    {
        case 0:
        {
            MV const m = argument(w, s);
            attempt("push_back(copy)", !array && !null, [&] {
                fly::Json const value = ref::make(m);
                n.j->push_back(value);
                PBT_CHECK(ref::diff(value, m).empty(), "push_back changed its argument");
                if (null)
                    *n.m = MV::arr();
                n.m->a.push_back(m);
            });
            return "push_back(copy)";
        }
        case 1:
        {
            MV const m = argument(w, s);
            attempt("push_back(move)", !array && !null, [&] {
                n.j->push_back(ref::make(m));
                if (null)
                    *n.m = MV::arr();
                n.m->a.push_back(m);
            });
            return "push_back(move)";
        }
        case 2:
        {
            // append one of its own elements
            if (!array || n.m->a.empty())
                return "nothing";
            std::size_t const k = s.below(n.m->a.size());
            MV const m = n.m->a[k];
            switch (s.below(3))
            {
                case 0:
                    n.j->push_back(static_cast<fly::Json const &>(n.j->at(k)));
                    n.m->a.push_back(m);
                    return "push_back(own element)";
                case 1:
                {
                    std::size_t const at = s.below(n.m->a.size() + 1);
                    n.j->insert(position(*n.j, *n.m, at), static_cast<fly::Json const &>(n.j->at(k)));
                    n.m->a.insert(n.m->a.begin() + static_cast<std::ptrdiff_t>(at), m);
                    return "insert(position, own element)";
                }
                default:
                {
                    std::size_t const at = s.below(n.m->a.size() + 1), count = s.below(4);
                    n.j->insert(position(*n.j, *n.m, at), count, static_cast<fly::Json const &>(n.j->at(k)));
                    n.m->a.insert(n.m->a.begin() + static_cast<std::ptrdiff_t>(at), count, m);
                    return "insert(position, count, own element)";
                }
            }
        }
        case 3:
        {
            MV const m = argument(w, s);
            attempt("emplace_back", !array && !null, [&] {
                fly::Json &j = n.j->emplace_back(ref::make(m));
                if (null)
                    *n.m = MV::arr();
                n.m->a.push_back(m);
                PBT_CHECK(ref::diff(j, m).empty(), "emplace_back returned another element");
                PBT_CHECK(&j == &n.j->back(), "emplace_back did not return the last element");
            });
            return "emplace_back";
        }
        case 4:
        {
            bool const ok = array && !n.m->a.empty();
            attempt("pop_back", !ok, [&] { n.j->pop_back(); });
            if (ok)
                n.m->a.pop_back();
            return "pop_back";
        }
        case 5:
        {
            // positions that do not belong to the value
            Node const o = any_node(w, s, MV::Arr);
            if (o.j == n.j || (o.m->k != MV::Obj && o.m->k != MV::Arr))
                return "nothing";
            attempt("insert(foreign position)", true, [&] { n.j->insert(o.j->begin(), fly::Json(1)); });
            attempt("insert(null position)", true, [&] { n.j->insert(fly::Json::const_iterator(), fly::Json(1)); });
            attempt("insert(foreign position, list)", true, [&] { n.j->insert(o.j->begin(), {fly::Json(1), fly::Json(2)}); });
            attempt("insert(foreign position, count)", true, [&] { n.j->insert(o.j->begin(), 2, fly::Json(1)); });
            if (array)
                attempt("insert(position, mixed range)", true, [&] { n.j->insert(n.j->begin(), o.j->begin(), n.j->end()); });
            return "foreign positions";
        }
        default:
        {
            std::size_t const at = array ? s.below(n.m->a.size() + 1) : n.m->k == MV::Obj ? s.below(n.m->o.size() + 1) : 0;
            auto const pos = position(*n.j, *n.m, at);
            auto const mpos = static_cast<std::ptrdiff_t>(at);
            auto done = [&](fly::Json::iterator it, char const *what) { expect_at(it, *n.j, *n.m, at, what); };
            switch (s.below(5))
            {
                case 0:
                {
                    MV const m = argument(w, s);
                    attempt("insert(position, copy)", !array, [&] {
                        fly::Json const value = ref::make(m);
                        auto it = n.j->insert(pos, value);
                        n.m->a.insert(n.m->a.begin() + mpos, m);
                        done(it, "insert(position, copy)");
                    });
                    return "insert(position, copy)";
                }
                case 1:
                {
                    MV const m = argument(w, s);
                    attempt("insert(position, move)", !array, [&] {
                        auto it = n.j->insert(pos, ref::make(m));
                        n.m->a.insert(n.m->a.begin() + mpos, m);
                        done(it, "insert(position, move)");
                    });
                    return "insert(position, move)";
                }
                case 2:
                {
                    MV const m = argument(w, s);
                    std::size_t const count = s.below(4);
                    attempt("insert(position, count)", !array, [&] {
                        auto it = n.j->insert(pos, count, ref::make(m));
                        n.m->a.insert(n.m->a.begin() + mpos, count, m);
                        done(it, "insert(position, count)");
                    });
                    return "insert(position, count)";
                }
                case 3:
                {
                    MV const m1 = argument(w, s), m2 = argument(w, s);
                    bool const none = s.chance(1, 6);
                    attempt("insert(position, list)", !array, [&] {
                        auto it = none ? n.j->insert(pos, std::initializer_list<fly::Json> {}) : n.j->insert(pos, {ref::make(m1), ref::make(m2)});
                        if (!none)
                            n.m->a.insert(n.m->a.begin() + mpos, {m1, m2});
                        done(it, "insert(position, list)");
                    });
                    return "insert(position, list)";
                }
                default:
                {
                    Node const o = any_node(w, s, MV::Arr);
                    if ((o.m->k != MV::Obj && o.m->k != MV::Arr) || ((o.contains(n) || n.contains(o)) && o.j != n.j))
                        return "nothing";
                    std::size_t const first = s.below(o.m->size() + 1), last = first + s.below(o.m->size() - first + 1);
                    bool const ok = array && o.m->k == MV::Arr && o.j != n.j;
                    attempt("insert(position, range)", !ok, [&] {
                        auto it = n.j->insert(pos, position(*o.j, *o.m, first), position(*o.j, *o.m, last));
                        n.m->a.insert(n.m->a.begin() + mpos, o.m->a.begin() + static_cast<std::ptrdiff_t>(first), o.m->a.begin() + static_cast<std::ptrdiff_t>(last));
                        done(it, "insert(position, range)");
                    });
                    return "insert(position, range)";
                }
            }
        }
    }
}

char const *op_erase(World &w, pbt::Src &s)
{
    Node const n = any_node(w, s, s.flip() ? MV::Arr : MV::Obj);
    bool const array = n.m->k == MV::Arr, object = n.m->k == MV::Obj;
    auto drop = [&](std::size_t first, std::size_t last) {
        if (array)
            n.m->a.erase(n.m->a.begin() + static_cast<std::ptrdiff_t>(first), n.m->a.begin() + static_cast<std::ptrdiff_t>(last));
        else
            n.m->o.erase(std::next(n.m->o.begin(), static_cast<std::ptrdiff_t>(first)), std::next(n.m->o.begin(), static_cast<std::ptrdiff_t>(last)));
    };
    switch (s.below(5))
    {
        case 0:
        {
            std::string const key = gen::key(s);
            attempt("erase(key)", !object, [&] {
                std::size_t const c = n.j->erase(ref::json_escape(key));
                std::size_t const want = n.m->o.erase(key);
                PBT_CHECK(c == want, "erase(key) returned %zu", c);
            });
            return "erase(key)";
        }
        case 1:
        {
            std::size_t const index = s.chance(1, 8) ? s.u64() : s.below(n.m->size() + 2);
            bool const ok = array && index < n.m->a.size();
            attempt("erase(index)", !ok, [&] { n.j->erase(index); });
            if (ok)
                drop(index, index + 1);
            return "erase(index)";
        }
        case 2:
        {
            std::size_t const size = array || object ? n.m->size() : 0;
            std::size_t const at = s.below(size + 1);
            bool const ok = at < size;
            auto const pos = position(*n.j, *n.m, at);
            attempt("erase(position)", !ok, [&] {
                auto it = n.j->erase(pos);
                drop(at, at + 1);
                expect_at(it, *n.j, *n.m, at, "erase(position)");
            });
            return "erase(position)";
        }
        case 3:
        {
            std::size_t const size = array || object ? n.m->size() : 0;
            std::size_t const first = s.below(size + 1), last = first + s.below(size - first + 1);
            auto const b = position(*n.j, *n.m, first), e = position(*n.j, *n.m, last);
            attempt("erase(range)", !array && !object, [&] {
                auto it = n.j->erase(b, e);
                drop(first, last);
                expect_at(it, *n.j, *n.m, first, "erase(range)");
            });
            return "erase(range)";
        }
        default:
        {
            Node const o = any_node(w, s);
            if (o.j == n.j || (o.m->k != MV::Obj && o.m->k != MV::Arr))
                return "nothing";
            attempt("erase(foreign position)", true, [&] { n.j->erase(o.j->begin()); });
            attempt("erase(foreign range)", true, [&] { n.j->erase(o.j->begin(), o.j->end()); });
            if (array || object)
                attempt("erase(mixed range)", true, [&] { n.j->erase(n.j->begin(), o.j->end()); });
            attempt("erase(null position)", true, [&] { n.j->erase(fly::Json::const_iterator()); });
            return "erase(foreign positions)";
        }
    }
}

} // namespace j01
