// S03: string utilities against reference implementations.
#include "str_common.hpp"

#include "fly/types/string/string.hpp"

#include <clocale>
#include <cctype>

namespace {

template <typename C>
using Str = fly::BasicString<C>;
template <typename C>
using S = std::basic_string<C>;

// Small alphabets make overlaps, repetitions and matches likely.
template <typename C>
S<C> text(pbt::Src &s, std::size_t max, char const *alphabet, std::size_t letters)
{
    S<C> r(s.length(max), C {});
    for (auto &c : r)
        c = s.chance(1, 25) ? gen::unit<C>(s) : static_cast<C>(alphabet[s.below(letters)]);
    return r;
}

template <typename C>
void split(pbt::Src &s)
{
    C const delim = s.chance(5, 6) ? static_cast<C>(',') : gen::unit<C>(s);
    auto t = text<C>(s, 30, ",ab, ", 5);
    std::size_t const count = s.chance(1, 3) ? 0 : s.below(8);
    s.note(pbt::strf("%s count %zu", pbt::show(t).c_str(), count));
    // reference: pieces between delimiters, empty ones dropped, those beyond the limit joined to the last
    std::vector<S<C>> want;
    S<C> cur;
    auto push = [&] {
        if (cur.empty())
            return;
        if (count != 0 && want.size() == count)
            want.back() += delim, want.back() += cur;
        else
            want.push_back(cur);
        cur.clear();
    };
    for (C c : t)
    {
        if (c == delim)
            push();
        else
            cur += c;
    }
    push();
    auto const got = count == 0 && s.flip() ? Str<C>::split(t, delim) : Str<C>::split(t, delim, count);
    std::string g;
    for (auto const &e : got)
        g += pbt::show(e) + " ";
    PBT_CHECK(got == want, "split(%s, %x, %zu) = %s", pbt::show(t).c_str(), ref::unit(delim), count, g.c_str());
    if (want.size() > 1)
        s.nontrivial();
    if (count && want.size() == count)
        s.label("limited");
}

template <typename C>
void trim(pbt::Src &s)
{
    auto t = text<C>(s, 20, " \t\n\r\v\fab", 8);
    s.note(pbt::show(t));
    auto space = [](C c) { auto const u = ref::unit(c); return u == ' ' || (u >= 9 && u <= 13); };
    std::size_t b = 0, e = t.size();
    while (b < e && space(t[b]))
        ++b;
    while (e > b && space(t[e - 1]))
        --e;
    auto got = t;
    Str<C>::trim(got);
    PBT_CHECK(got == t.substr(b, e - b), "trim(%s) = %s", pbt::show(t).c_str(), pbt::show(got).c_str());
    if (b != 0 && e != t.size() && e > b)
        s.nontrivial();
}

template <typename C>
void replace(pbt::Src &s)
{
    auto const t = text<C>(s, 30, "ab", 2);
    auto const search = text<C>(s, 4, "ab", 2);
    auto const repl = text<C>(s, 5, "abx", 3);
    s.note(pbt::show(t) + " " + pbt::show(search) + " -> " + pbt::show(repl));
    auto reference = [&](S<C> const &with) {
        // left to right, non-overlapping
        if (search.empty())
            return t;
        S<C> r;
        for (std::size_t i = 0; i < t.size();)
        {
            if (t.compare(i, search.size(), search) == 0 && i + search.size() <= t.size())
            {
                r += with;
                i += search.size();
            }
            else
                r += t[i++];
        }
        return r;
    };
    auto got = t;
    Str<C>::replace_all(got, search, typename Str<C>::view_type(repl));
    PBT_CHECK(got == reference(repl), "replace_all(%s, %s, %s) = %s", pbt::show(t).c_str(), pbt::show(search).c_str(), pbt::show(repl).c_str(), pbt::show(got).c_str());
    C const ch = s.flip() ? static_cast<C>('a') : gen::unit<C>(s);
    got = t;
    Str<C>::replace_all(got, search, ch);
    PBT_CHECK(got == reference(S<C>(1, ch)), "replace_all(%s, %s, char) = %s", pbt::show(t).c_str(), pbt::show(search).c_str(), pbt::show(got).c_str());
    // removal: until no occurrence remains
    got = t;
    Str<C>::remove_all(got, search);
    S<C> want = t;
    if (!search.empty())
        for (std::size_t i; (i = want.find(search)) != S<C>::npos;)
            want.erase(i, search.size());
    PBT_CHECK(got == want, "remove_all(%s, %s) = %s", pbt::show(t).c_str(), pbt::show(search).c_str(), pbt::show(got).c_str());
    if (!search.empty() && t.find(search) != S<C>::npos)
        s.nontrivial();
    if (!search.empty() && repl.find(search) != S<C>::npos)
        s.label("replacement contains search");
}

template <typename C>
void wildcard(pbt::Src &s)
{
    auto const t = text<C>(s, 12, "ab", 2);
    S<C> p;
    if (s.chance(1, 2))
        p = text<C>(s, 9, "a*b", 3);
    else
    {
        // derive the pattern from the text so that matches are common
        p = t;
        for (std::size_t k = 1 + s.below(3); k > 0 && !p.empty(); --k)
        {
            std::size_t const i = s.below(p.size() + 1);
            std::size_t const n = s.below(p.size() - i + 1);
            p.replace(i, n, 1, static_cast<C>('*'));
        }
        if (s.chance(1, 3) && !p.empty())
            p.erase(s.below(p.size()), 1);
        else if (s.chance(1, 4) && !p.empty())
            p.insert(s.below(p.size()), 1, static_cast<C>('a'));
    }
    s.note(pbt::show(t) + " ~ " + pbt::show(p));
    // dynamic programming; the empty pattern matches nothing
    std::vector<char> row(t.size() + 1, 0);
    row[0] = 1;
    for (C c : p)
    {
        std::vector<char> next(t.size() + 1, 0);
        if (c == static_cast<C>('*'))
        {
            char any = 0;
            for (std::size_t i = 0; i <= t.size(); ++i)
                next[i] = any |= row[i];
        }
        else
            for (std::size_t i = 0; i < t.size(); ++i)
                next[i + 1] = row[i] && t[i] == c;
        row = next;
    }
    bool const want = !p.empty() && row[t.size()];
    PBT_CHECK(Str<C>::wildcard_match(t, p) == want, "wildcard_match(%s, %s) should be %d", pbt::show(t).c_str(), pbt::show(p).c_str(), want);
    s.label(want ? "match" : "no match");
    if (p.find(static_cast<C>('*')) != S<C>::npos && p.size() > 1)
        s.nontrivial();
}

template <typename C>
void join(pbt::Src &s)
{
    auto const a = ref::encode_all<C>(gen::codepoints(s, 8)), b = ref::encode_all<C>(gen::codepoints(s, 8)), c = ref::encode_all<C>(gen::codepoints(s, 8));
    C const sep = static_cast<C>(1 + s.below(126));
    S<C> const d(1, sep);
    auto const sv = typename Str<C>::view_type(b);
    s.note(pbt::show(a) + pbt::show(b) + pbt::show(c));
    s.nontrivial();
    PBT_CHECK(Str<C>::join(sep, a) == a, "join of one");
    PBT_CHECK(Str<C>::join(sep, a, b) == a + d + b, "join of two");
    PBT_CHECK(Str<C>::join(sep, a, sv, c) == a + d + b + d + c, "join of three");
    S<C> const z = a.substr(0, a.find(C {}));
    PBT_CHECK(Str<C>::join(sep, z.c_str(), sep, b) == z + d + d + d + b, "join of a C string and a character");
    auto const n = static_cast<std::int64_t>(s.interesting());
    auto const ns = std::to_string(n);
    PBT_CHECK(Str<C>::join(sep, n, a) == S<C>(ns.begin(), ns.end()) + d + a, "join of a number");
    std::size_t const len = s.length(60);
    auto const r = Str<C>::generate_random_string(len);
    PBT_CHECK(r.size() == len, "random string length");
    for (C ch : r)
        PBT_CHECK(ref::unit(ch) < 0x80 && std::isalnum(static_cast<int>(ref::unit(ch))), "random string character %x", ref::unit(ch));
    PBT_CHECK(Str<C>::size(a) == a.size() && Str<C>::size(sv) == sv.size() && Str<C>::size(z.c_str()) == z.size(), "size");
}

template <typename C>
void classify(C c)
{
    auto const u = ref::unit(c);
    int const a = u < 0x80 ? static_cast<int>(u) : 0; // nothing outside ASCII is classified in the C locale
    bool const in = u < 0x80;
#define CLASS(f, g)                                                                                 \
    PBT_CHECK(Str<C>::f(c) == (in && std::g(a)), #f "(%x), %zu byte units", u, sizeof(C))
    CLASS(is_alpha, isalpha);
    CLASS(is_upper, isupper);
    CLASS(is_lower, islower);
    CLASS(is_digit, isdigit);
    CLASS(is_x_digit, isxdigit);
    CLASS(is_space, isspace);
#undef CLASS
    PBT_CHECK(Str<C>::to_upper(c) == (in ? static_cast<C>(std::toupper(a)) : c), "to_upper(%x)", u);
    PBT_CHECK(Str<C>::to_lower(c) == (in ? static_cast<C>(std::tolower(a)) : c), "to_lower(%x)", u);
}

void classes(pbt::Src &s)
{
    std::uint64_t const block = s.enumerate(0x1140);
    s.note(pbt::strf("values %llx..", static_cast<unsigned long long>(block * 256)));
    s.nontrivial();
    for (std::uint64_t i = 0; i < 256; ++i)
    {
        std::uint64_t const v = block * 256 + i;
        if (v < 256)
        {
            classify(static_cast<char>(v));
            classify(static_cast<char8_t>(v));
        }
        if (v < 65536)
            classify(static_cast<char16_t>(v));
        classify(static_cast<char32_t>(v));
        classify(static_cast<wchar_t>(v));
    }
    for (int i = 0; i < 50; ++i)
    {
        auto const v = s.interesting();
        classify(static_cast<char32_t>(v));
        classify(static_cast<wchar_t>(v));
        // an ASCII character plus high bits
        auto const w = static_cast<std::uint32_t>(s.below(128) | (1u << (8 + s.below(24))));
        classify(static_cast<char32_t>(w));
        classify(static_cast<wchar_t>(w));
        classify(static_cast<char16_t>(w));
    }
}

} // namespace

#define ALL(name, f, q, t)                                                                          \
    {name "-char", f<char>, q, t}, {name "-wchar", f<wchar_t>, q / 4, t / 4}, {name "-char8", f<char8_t>, q / 4, t / 4}, {name "-char16", f<char16_t>, q / 4, t / 4}, {name "-char32", f<char32_t>, q / 4, t / 4}

int main(int argc, char **argv)
{
    return pbt::main(argc, argv, {"S03",
        "Texts over two- and three-letter alphabets (so that overlaps, repetitions and self-containing replacements are frequent) with boundary code units, for all five character types: split with every limit, trim, replace_all, remove_all, wildcard patterns (random and derived from the text), join, and every value up to 0x113FFF plus high values for the classifiers. Non-trivial: several pieces, whitespace on both sides, an occurrence present, a pattern with a wildcard. Oracles: loop references, dynamic-programming matcher, the C locale's <cctype> on ASCII.",
        {ALL("split", split, 100000, 4000000), ALL("trim", trim, 60000, 2000000), ALL("replace", replace, 120000, 5000000), ALL("wildcard", wildcard, 200000, 8000000), ALL("join", join, 12000, 400000), {"classes", classes, 0x1140, 0x1140}},
        {},
        {"split drops empty pieces, also beyond the limit (asserted by the existing tests); an empty wildcard pattern matches nothing (asserted by the existing tests)", "replace_all is left to right and non-overlapping; remove_all repeats until no occurrence remains"}});
}
