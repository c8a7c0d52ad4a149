#include "j01_json.hpp"

namespace j01 {

namespace {

// The model of fly::Json(std::initializer_list<fly::Json>).
MV list_of(std::vector<MV> const &v)
{
    bool object = true;
    for (auto const &e : v)
        object = object && e.k == MV::Arr && e.a.size() == 2 && e.a[0].k == MV::Str;
    MV m = object ? MV::obj() : MV::arr();
    for (auto const &e : v)
    {
        if (object)
            m.o.emplace(e.a[0].s, e.a[1]);
        else
            m.a.push_back(e);
    }
    return m;
}

} // namespace

char const *op_value(World &w, pbt::Src &s)
{
    Node const n = any_node(w, s);
    switch (s.below(16))
    {
        case 0:
        {
            Node const o = any_node(w, s);
            MV const m = *o.m;
            if (ref::show(m).size() > 1000)
                return "nothing";
            *n.j = static_cast<fly::Json const &>(*o.j);
            *n.m = m;
            return "copy assignment";
        }
        case 1:
        {
            Node const o = any_node(w, s);
            if (o.contains(n) && o.j != n.j)
                return "nothing";
            bool const inside = n.contains(o);
            MV m = std::move(*o.m);
            *n.j = std::move(*o.j);
            if (!inside)
                *o.m = MV();
            *n.m = std::move(m);
            return "move assignment";
        }
        case 2:
        {
            fly::Json moved(std::move(*n.j));
            PBT_CHECK(n.j->is_null(), "moved-from value is not null");
            auto const d = ref::diff(moved, *n.m);
            PBT_CHECK(d.empty(), "move construction: %s", d.c_str());
            if (s.flip())
                *n.j = std::move(moved);
            else
                *n.m = MV();
            return "move construction";
        }
        case 3:
        {
            fly::Json copy(*n.j);
            auto const d = ref::diff(copy, *n.m);
            PBT_CHECK(d.empty(), "copy construction: %s", d.c_str());
            copy.clear();
            return "copy construction";
        }
        case 4:
        {
            Node const o = any_node(w, s);
            if ((o.contains(n) || n.contains(o)) && o.j != n.j)
                return "nothing";
            n.j->swap(*o.j);
            if (n.m != o.m)
                std::swap(*n.m, *o.m);
            return "swap with a value";
        }
        case 5:
        {
            std::string const text = gen::json_text(s, 6);
            std::string other = ref::json_escape(text);
            std::string const before = other;
            bool const ok = n.m->k == MV::Str;
            attempt("swap with a string", !ok, [&] { n.j->swap(other); });
            PBT_CHECK(other == (ok ? n.m->s : before), "swap with a string left %s", pbt::show(other).c_str());
            if (ok)
                n.m->s = text;
            return "swap with a string";
        }
        case 6:
        {
            MV m = MV::arr();
            std::vector<fly::Json> other;
            for (std::size_t k = s.below(4); k > 0; --k)
            {
                m.a.push_back(gen::value(s, 1, 3));
                other.push_back(ref::make(m.a.back()));
            }
            bool const ok = n.m->k == MV::Arr;
            attempt("swap with a vector", !ok, [&] { n.j->swap(other); });
            MV &want = ok ? *n.m : m;
            PBT_CHECK(other.size() == want.a.size(), "swap with a vector left %zu elements", other.size());
            for (std::size_t k = 0; k < other.size(); ++k)
                PBT_CHECK(ref::diff(other[k], want.a[k]).empty(), "swap with a vector: element %zu", k);
            if (ok)
                *n.m = m;
            return "swap with a vector";
        }
        case 7:
        {
            MV m = MV::obj();
            std::map<std::string, fly::Json> other;
            for (std::size_t k = s.below(4); k > 0; --k)
            {
                std::string const key = gen::key(s);
                m.o[key] = gen::value(s, 1, 3);
                other[ref::json_escape(key)] = ref::make(m.o[key]);
            }
            bool const ok = n.m->k == MV::Obj;
            auto const before = other;
            attempt("swap with a map", !ok, [&] { n.j->swap(other); });
            if (!ok)
                PBT_CHECK(other == before, "failed swap changed the map");
            else
            {
                PBT_CHECK(other.size() == n.m->o.size(), "swap with a map left %zu elements", other.size());
                for (auto const &[k, v] : n.m->o)
                    PBT_CHECK(other.contains(k) && ref::diff(other.at(k), v).empty(), "swap with a map: %s", pbt::show(k).c_str());
                *n.m = m;
            }
            return "swap with a map";
        }
        case 8:
        {
            bool const ok = n.m->k == MV::Arr;
            attempt("conversion of an rvalue to an array", !ok, [&] {
                auto const a = static_cast<fly::json_array_type>(std::move(*n.j));
                PBT_CHECK(a.size() == n.m->a.size(), "converted %zu elements", a.size());
                for (std::size_t k = 0; k < a.size(); ++k)
                    PBT_CHECK(ref::diff(a[k], n.m->a[k]).empty(), "converted element %zu", k);
            });
            if (ok)
                *n.m = MV();
            return "conversion of an rvalue to an array";
        }
        case 9:
        {
            bool const ok = n.m->k == MV::Obj;
            attempt("conversion of an rvalue to an object", !ok, [&] {
                auto const o = static_cast<fly::json_object_type>(std::move(*n.j));
                PBT_CHECK(o.size() == n.m->o.size(), "converted %zu elements", o.size());
                for (auto const &[k, v] : n.m->o)
                    PBT_CHECK(o.contains(k) && ref::diff(o.at(k), v).empty(), "converted %s", pbt::show(k).c_str());
            });
            if (ok)
                *n.m = MV();
            return "conversion of an rvalue to an object";
        }
        case 10:
        {
            bool const ok = n.m->k == MV::Str;
            attempt("conversion of an rvalue to a string", !ok, [&] {
                auto const t = static_cast<fly::json_string_type>(std::move(*n.j));
                PBT_CHECK(t == n.m->s, "converted to %s", pbt::show(t).c_str());
            });
            if (ok)
                *n.m = MV();
            return "conversion of an rvalue to a string";
        }
        case 11:
            n.j->clear();
            n.m->s.clear();
            n.m->o.clear();
            n.m->a.clear();
            n.m->b = false;
            n.m->i = 0;
            n.m->u = 0;
            n.m->f = 0;
            return "clear";
        case 12:
        {
            std::size_t const size = s.below(max_size);
            bool const text = n.m->k == MV::Str;
            bool const ok = n.m->k == MV::Arr || (text && (size >= n.m->s.size() || ref::decode_all<char>(n.m->s.substr(0, size))));
            attempt("resize", !ok, [&] { n.j->resize(size); });
            if (ok && text)
                n.m->s.resize(size);
            else if (ok)
                n.m->a.resize(size);
            return "resize";
        }
        case 13:
        {
            std::size_t const size = s.below(100);
            bool const ok = n.m->k == MV::Str || n.m->k == MV::Arr;
            std::size_t const before = n.j->capacity();
            attempt("reserve", !ok, [&] { n.j->reserve(size); });
            std::size_t const after = n.j->capacity();
            PBT_CHECK(after >= n.m->size(), "capacity %zu below size %zu", after, n.m->size());
            PBT_CHECK(after >= before, "reserve(%zu) shrank the capacity from %zu to %zu", size, before, after);
            if (ok)
                PBT_CHECK(after >= size, "reserve(%zu) made a capacity of %zu", size, after);
            else
                PBT_CHECK(after == n.m->size(), "capacity %zu of a value of size %zu", after, n.m->size());
            return "reserve";
        }
        case 14:
        {
            std::vector<MV> v;
            for (std::size_t k = s.below(4); k > 0; --k)
            {
                v.push_back(gen::value(s, 1, 3));
                if (s.chance(2, 3))
                {
                    MV pair = MV::arr();
                    pair.a.push_back(MV::str(gen::key(s)));
                    pair.a.push_back(v.back());
                    v.back() = pair;
                }
            }
            auto at = [&](std::size_t k) { return ref::make(v[k]); };
            using List = std::initializer_list<fly::Json>;
            switch (v.size())
            {
                case 0: *n.j = fly::Json(List {}); break;
                case 1: *n.j = fly::Json(List {at(0)}); break;
                case 2: *n.j = fly::Json(List {at(0), at(1)}); break;
                default: *n.j = fly::Json(List {at(0), at(1), at(2)}); break;
            }
            *n.m = list_of(v);
            return "construction from a list";
        }
        default:
        {
            MV const m = argument(w, s);
            *n.j = ref::make(m);
            *n.m = m;
            return "assignment";
        }
    }
}

char const *op_access(World &w, pbt::Src &s)
{
    Node const n = any_node(w, s);
    bool const object = n.m->k == MV::Obj, array = n.m->k == MV::Arr, null = n.m->k == MV::Null;
    auto same = [&](fly::Json const &j, MV const &m, char const *what) {
        auto const d = ref::diff(j, m);
        PBT_CHECK(d.empty(), "%s: %s", what, d.c_str());
    };
    fly::Json const &cj = *n.j;
    switch (s.below(10))
    {
        case 0:
        case 1:
        {
            std::string const key = gen::key(s);
            MV const m = argument(w, s);
            bool const set = s.flip();
            attempt("operator[](key)", !(object || null), [&] {
                fly::Json &j = (*n.j)[ref::json_escape(key)];
                if (null)
                    *n.m = MV::obj();
                same(j, n.m->o[key], "operator[](key)");
                if (set)
                {
                    j = ref::make(m);
                    n.m->o[key] = m;
                }
            });
            return "operator[](key)";
        }
        case 2:
        case 3:
        {
            std::size_t const index = s.below(max_size);
            MV const m = argument(w, s);
            bool const set = s.flip();
            attempt("operator[](index)", !(array || null), [&] {
                fly::Json &j = (*n.j)[index];
                if (null)
                    *n.m = MV::arr();
                if (index >= n.m->a.size())
                    n.m->a.resize(index + 1);
                same(j, n.m->a[index], "operator[](index)");
                if (set)
                {
                    j = ref::make(m);
                    n.m->a[index] = m;
                }
            });
            return "operator[](index)";
        }
        case 4:
        {
            std::string const key = gen::key(s);
            bool const ok = object && n.m->o.contains(key);
            attempt("at(key)", !ok, [&] { fly::Json const &got = n.j->at(ref::json_escape(key)); same(got, n.m->o.at(key), "at(key)"); });
            attempt("at(key) const", !ok, [&] { fly::Json const &got = cj.at(ref::json_escape(key)); same(got, n.m->o.at(key), "at(key) const"); });
            attempt("operator[](key) const", !ok, [&] { fly::Json const &got = cj[ref::json_escape(key)]; same(got, n.m->o.at(key), "operator[](key) const"); });
            return "at(key)";
        }
        case 5:
        {
            std::size_t const index = s.chance(1, 8) ? s.u64() : s.below(n.m->size() + 2);
            bool const ok = array && index < n.m->a.size();
            attempt("at(index)", !ok, [&] { fly::Json const &got = n.j->at(index); same(got, n.m->a.at(index), "at(index)"); });
            attempt("at(index) const", !ok, [&] { fly::Json const &got = cj.at(index); same(got, n.m->a.at(index), "at(index) const"); });
            attempt("operator[](index) const", !ok, [&] { fly::Json const &got = cj[index]; same(got, n.m->a.at(index), "operator[](index) const"); });
            return "at(index)";
        }
        case 6:
        {
            bool const ok = (array || object) && n.m->size() > 0;
            auto first = [&]() -> MV const & { return array ? n.m->a.front() : n.m->o.begin()->second; };
            auto last = [&]() -> MV const & { return array ? n.m->a.back() : n.m->o.rbegin()->second; };
            attempt("front", !ok, [&] { fly::Json const &got = n.j->front(); same(got, first(), "front"); });
            attempt("front const", !ok, [&] { fly::Json const &got = cj.front(); same(got, first(), "front const"); });
            attempt("back", !ok, [&] { fly::Json const &got = n.j->back(); same(got, last(), "back"); });
            attempt("back const", !ok, [&] { fly::Json const &got = cj.back(); same(got, last(), "back const"); });
            return "front and back";
        }
        case 7:
        {
            std::string const key = gen::key(s), escaped = ref::json_escape(key);
            bool const has = object && n.m->o.contains(key);
            attempt("count", !object, [&] { PBT_CHECK(cj.count(escaped) == (has ? 1 : 0), "count of %s", pbt::show(key).c_str()); });
            attempt("contains", !object, [&] { PBT_CHECK(cj.contains(escaped) == has, "contains %s", pbt::show(key).c_str()); });
            attempt("find", !object, [&] {
                auto it = n.j->find(escaped);
                PBT_CHECK((it != n.j->end()) == has, "find %s", pbt::show(key).c_str());
                if (has)
                {
                    PBT_CHECK(it.key() == key, "find: key %s", pbt::show(it.key()).c_str());
                    same(*it, n.m->o.at(key), "find");
                }
            });
            attempt("find const", !object, [&] {
                auto it = cj.find(escaped);
                PBT_CHECK((it != cj.end()) == has, "find const %s", pbt::show(key).c_str());
                if (has)
                    same(it.value(), n.m->o.at(key), "find const");
            });
            return "lookups";
        }
        case 8:
        {
            // keys that are not valid JSON text are refused and change nothing
            static std::string const bad[] = {"\"", "\\", "\\q", "\n", std::string(1, '\0'), "\xff", "a\xc3", "\\u12", "\\ud800", "\x1f"};
            std::string const key = bad[s.below(10)];
            switch (s.below(7))
            {
                case 0: attempt("operator[](bad key)", true, [&] { (*n.j)[key] = 1; }); break;
                case 1: attempt("at(bad key)", true, [&] { n.j->at(key); }); break;
                case 2: attempt("insert(bad key)", true, [&] { n.j->insert(key, fly::Json(1)); }); break;
                case 3: attempt("emplace(bad key)", true, [&] { n.j->emplace(key, 1); }); break;
                case 4: attempt("erase(bad key)", true, [&] { n.j->erase(key); }); break;
                case 5: attempt("contains(bad key)", true, [&] { FLY_UNUSED(cj.contains(key)); }); break;
                default: attempt("insert_or_assign(bad key)", true, [&] { n.j->insert_or_assign(key, fly::Json(1)); }); break;
            }
            return "bad keys";
        }
        default:
        {
            // writing through a reference or an iterator
            MV const m = argument(w, s);
            if ((!array && !object) || n.m->size() == 0)
                return "nothing";
            std::size_t const at = s.below(n.m->size());
            auto it = n.j->begin();
            for (std::size_t k = 0; k < at; ++k)
                ++it;
            *it = ref::make(m);
            (array ? n.m->a[at] : std::next(n.m->o.begin(), static_cast<std::ptrdiff_t>(at))->second) = m;
            return "write through an iterator";
        }
    }
}

} // namespace j01
