#include "j01_json.hpp"

namespace j01 {

namespace {

MV const &element(MV const &m, std::size_t i)
{
    return m.k == MV::Arr ? m.a[i] : std::next(m.o.begin(), static_cast<std::ptrdiff_t>(i))->second;
}
std::string const &key_of(MV const &m, std::size_t i)
{
    return std::next(m.o.begin(), static_cast<std::ptrdiff_t>(i))->first;
}
void same(fly::Json const &j, MV const &m, char const *what, std::size_t i)
{
    auto const d = ref::diff(j, m);
    PBT_CHECK(d.empty(), "%s, position %zu: %s", what, i, d.c_str());
}

// 'begin' and 'end' delimit n positions, where index(k) is the model element at position k.
template <typename It, typename Index>
void walk(pbt::Src &s, It const begin, It const end, MV const &m, Index index, char const *what)
{
    std::size_t const n = m.size();
    bool const array = m.k == MV::Arr;
    std::vector<It> at;
    It it = begin;
    for (std::size_t k = 0; k < n; ++k)
    {
        at.push_back(it);
        PBT_CHECK(it != end, "%s: ends after %zu of %zu", what, k, n);
        same(*it, element(m, index(k)), what, k);
        same(it.value(), element(m, index(k)), what, k);
        same(*it.operator->(), element(m, index(k)), what, k);
        if (array)
            attempt("key of an array element", true, [&] { FLY_UNUSED(it.key()); });
        else
            PBT_CHECK(it.key() == key_of(m, index(k)), "%s: key %s at %zu", what, pbt::show(it.key()).c_str(), k);
        if (s.flip())
        {
            It const &r = ++it;
            PBT_CHECK(&r == &it, "++ returns another iterator");
        }
        else
        {
            It const old = it++;
            PBT_CHECK(old == at.back(), "%s: postfix ++ returned another position", what);
        }
    }
    at.push_back(it);
    PBT_CHECK(it == end, "%s: does not end after %zu", what, n);
    attempt("dereference of the end", true, [&] { FLY_UNUSED(*it); });
    attempt("value of the end", true, [&] { FLY_UNUSED(it.value()); });
    attempt("-> of the end", true, [&] { FLY_UNUSED(it.operator->()); });
    attempt("key of the end", true, [&] { FLY_UNUSED(it.key()); });
    It beyond = it;
    attempt("advance beyond the end", true, [&] { ++beyond; });
    PBT_CHECK(beyond == end, "%s: a failed advance moved the iterator", what);
    for (std::size_t k = n; k-- > 0;)
    {
        if (s.flip())
            --it;
        else
            it--;
        PBT_CHECK(it == at[k], "%s: -- reached another position than %zu", what, k);
    }
    beyond = begin;
    attempt("step before the beginning", true, [&] { --beyond; });
    PBT_CHECK(beyond == begin, "%s: a failed step moved the iterator", what);

    for (std::size_t tries = 4; tries > 0; --tries)
    {
        std::size_t const i = s.below(n + 1), j = s.below(n + 1);
        std::ptrdiff_t const off = s.chance(1, 10) ? static_cast<std::ptrdiff_t>(s.interesting() >> 1) * (s.flip() ? 1 : -1) : s.range(-static_cast<std::int64_t>(n) - 1, static_cast<std::int64_t>(n) + 1);
        auto const pi = static_cast<std::ptrdiff_t>(i), pj = static_cast<std::ptrdiff_t>(j), pn = static_cast<std::ptrdiff_t>(n);
        bool const fits = off >= -pi && off <= pn - pi;
        PBT_CHECK((at[i] == at[j]) == (i == j) && (at[i] != at[j]) == (i != j), "%s: equality of positions %zu and %zu", what, i, j);
        attempt("comparison of positions", !array, [&] {
            PBT_CHECK((at[i] < at[j]) == (i < j) && (at[i] <= at[j]) == (i <= j) && (at[i] > at[j]) == (i > j) && (at[i] >= at[j]) == (i >= j), "%s: order of positions %zu and %zu", what, i, j);
        });
        attempt("distance", !array, [&] { PBT_CHECK(at[i] - at[j] == pi - pj, "%s: distance of %zu and %zu is %td", what, i, j, at[i] - at[j]); });
        attempt("it + n", !array || !fits, [&] { It const got = at[i] + off;
            PBT_CHECK(got == at[static_cast<std::size_t>(pi + off)], "%s: %zu + %td", what, i, off); });
        attempt("it - n", !array || !fits, [&] { It const got = at[i] - (-off);
            PBT_CHECK(got == at[static_cast<std::size_t>(pi + off)], "%s: %zu - %td", what, i, -off); });
        attempt("it += n", !array || !fits, [&] {
            It c = at[i];
            It &r = (c += off);
            PBT_CHECK(&r == &c && c == at[static_cast<std::size_t>(pi + off)], "%s: %zu += %td", what, i, off);
        });
        attempt("it -= n", !array || !fits, [&] {
            It c = at[i];
            It &r = (c -= -off);
            PBT_CHECK(&r == &c && c == at[static_cast<std::size_t>(pi + off)], "%s: %zu -= %td", what, i, -off);
        });
        attempt("it[n]", !array || !fits || pi + off == pn, [&] {
            fly::Json const &got = at[i][off];
            same(got, element(m, index(static_cast<std::size_t>(pi + off))), "it[n]", i);
        });
    }
}

} // namespace

char const *op_iterate(World &w, pbt::Src &s)
{
    Node const n = any_node(w, s, s.flip() ? MV::Arr : MV::Obj);
    fly::Json const &cj = *n.j;
    if (n.m->k != MV::Arr && n.m->k != MV::Obj)
    {
        attempt("begin", true, [&] { n.j->begin(); });
        attempt("end", true, [&] { n.j->end(); });
        attempt("cbegin", true, [&] { cj.begin(); });
        attempt("cend", true, [&] { cj.cend(); });
        attempt("rbegin", true, [&] { n.j->rbegin(); });
        attempt("crend", true, [&] { cj.rend(); });
        return "iterators of other types";
    }
    std::size_t const size = n.m->size();
    auto forward = [](std::size_t k) { return k; };
    auto backward = [size](std::size_t k) { return size - 1 - k; };
    switch (s.below(6))
    {
        case 0: walk(s, n.j->begin(), n.j->end(), *n.m, forward, "iteration"); return "iteration";
        case 1: walk(s, cj.begin(), cj.end(), *n.m, forward, "const iteration"); return "const iteration";
        case 2: walk(s, n.j->rbegin(), n.j->rend(), *n.m, backward, "reverse iteration"); return "reverse iteration";
        case 3: walk(s, cj.rbegin(), cj.crend(), *n.m, backward, "const reverse iteration"); return "const reverse iteration";
        case 4:
        {
            Node const o = any_node(w, s);
            if (o.j == n.j || (o.m->k != MV::Arr && o.m->k != MV::Obj))
                return "nothing";
            attempt("comparison across values", true, [&] { FLY_UNUSED(n.j->begin() == o.j->begin()); });
            attempt("order across values", true, [&] { FLY_UNUSED(n.j->begin() < o.j->begin()); });
            attempt("distance across values", true, [&] { FLY_UNUSED(n.j->begin() - o.j->begin()); });
            return "iterators across values";
        }
        default:
        {
            fly::Json::iterator none;
            fly::Json::const_iterator cnone;
            attempt("null iterator: *", true, [&] { FLY_UNUSED(*none); });
            attempt("null iterator: ++", true, [&] { ++none; });
            attempt("null iterator: +=", true, [&] { cnone += 1; });
            attempt("null iterator: ==", true, [&] { FLY_UNUSED(none == n.j->begin()); });
            attempt("null iterator: key", true, [&] { FLY_UNUSED(cnone.key()); });
            fly::Json::const_iterator converted = n.j->begin();
            PBT_CHECK(converted == cj.cbegin(), "conversion to a constant iterator");
            converted = n.j->end();
            PBT_CHECK(converted == cj.cend(), "assignment to a constant iterator");
            return "null iterators";
        }
    }
}

} // namespace j01
