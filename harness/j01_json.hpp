// J01: histories of operations on JSON values against plain containers.
#pragma once
#include "json_common.hpp"

namespace j01 {

constexpr std::size_t roots = 3;
constexpr std::size_t max_size = 12;

struct World
{
    fly::Json json[roots];
    MV model[roots];
};

struct Node
{
    fly::Json *j {nullptr};
    MV *m {nullptr};
    std::size_t root {0};
    std::vector<std::size_t> path;

    bool contains(Node const &o) const
    {
        return root == o.root && path.size() <= o.path.size() && std::equal(path.begin(), path.end(), o.path.begin());
    }
};

// Runs an operation; it must throw a JSON exception exactly when 'throws'.
template <typename F>
void attempt(char const *what, bool throws, F &&f)
{
    bool thrown = false;
    try
    {
        f();
    }
    catch (fly::JsonException const &)
    {
        thrown = true;
    }
    catch (pbt::Failure const &)
    {
        throw;
    }
    catch (pbt::Skip const &)
    {
        throw;
    }
    catch (std::exception const &e)
    {
        PBT_FAIL("%s: undocumented exception %s", what, e.what());
    }
    PBT_CHECK(thrown == throws, "%s: %s", what, thrown ? "threw" : "did not throw");
}

inline Node node_of(World &w, pbt::Src &s, std::size_t root)
{
    Node n {&w.json[root], &w.model[root], root, {}};
    while (n.m->size() > 0 && (n.m->k == MV::Arr || n.m->k == MV::Obj) && s.chance(1, 2))
    {
        std::size_t const i = s.below(n.m->size());
        if (n.m->k == MV::Arr)
        {
            n.j = &n.j->at(i);
            n.m = &n.m->a[i];
        }
        else
        {
            auto it = std::next(n.m->o.begin(), static_cast<std::ptrdiff_t>(i));
            n.j = &n.j->at(ref::json_escape(it->first));
            n.m = &it->second;
        }
        n.path.push_back(i);
    }
    return n;
}

inline Node any_node(World &w, pbt::Src &s)
{
    return node_of(w, s, s.below(roots));
}

// A node, preferably one of the given type.
inline Node any_node(World &w, pbt::Src &s, MV::Kind preferred)
{
    for (int k = 0; k < 3; ++k)
    {
        Node n = any_node(w, s);
        if (n.m->k == preferred || s.chance(1, 6))
            return n;
    }
    return any_node(w, s);
}

// A value to pass as an argument: fresh, or that of a node.
inline MV argument(World &w, pbt::Src &s)
{
    if (s.chance(2, 3))
        return gen::value(s, 2, 3);
    MV m = *any_node(w, s).m;
    if (ref::show(m).size() > 400)
        return MV();
    return m;
}

inline void check(World const &w, char const *what)
{
    for (std::size_t r = 0; r < roots; ++r)
    {
        auto const d = ref::diff(w.json[r], w.model[r]);
        PBT_CHECK(d.empty(), "after %s: value %zu: %s (expected %s)", what, r, d.c_str(), ref::show(w.model[r]).c_str());
    }
}

// The groups of operations; each performs one and returns its name.
char const *op_value(World &, pbt::Src &);
char const *op_access(World &, pbt::Src &);
char const *op_object(World &, pbt::Src &);
char const *op_array(World &, pbt::Src &);
char const *op_erase(World &, pbt::Src &);
char const *op_iterate(World &, pbt::Src &);

} // namespace j01
