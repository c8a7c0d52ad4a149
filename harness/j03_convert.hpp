// J03: conversions between C++ values and JSON values.
#pragma once
#include "json_parse.hpp"

#include "fly/types/string/string.hpp"

#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <set>
#include <unordered_map>
#include <unordered_set>

namespace j03 {

template <typename T>
concept Text = fly::StandardString<T>;
template <typename T>
concept Map = requires { typename T::mapped_type; };
template <typename T>
concept Sequence = !Text<T> && !Map<T> && requires(T t) { t.begin(); typename T::value_type; } && !std::is_same_v<T, fly::Json>;
template <typename T>
constexpr bool fixed_size = false;
template <typename T, std::size_t N>
constexpr bool fixed_size<std::array<T, N>> = true;

struct Outcome
{
    bool fails {false}; // the conversion must throw
    bool open {false};  // the target cannot represent the number: left open
};

// --- C++ to model: what a JSON value built from v must be; nothing when it must throw. -----------

template <typename C>
std::optional<std::string> json_text_of(std::basic_string<C> const &v)
{
    auto const cps = ref::decode_all<C>(std::basic_string_view<C>(v));
    if (!cps)
        return std::nullopt;
    return ref::json_body(ref::encode_all<char>(*cps));
}

inline std::optional<MV> model_of(fly::Json const &j)
{
    if (j.is_null()) return MV();
    if (j.is_string()) return MV::str(ref::text_of(j));
    if (j.is_boolean()) return MV::boolean(static_cast<bool>(j));
    if (j.is_signed_integer()) return MV::integer(static_cast<std::int64_t>(j));
    if (j.is_unsigned_integer()) return MV::natural(static_cast<std::uint64_t>(j));
    if (j.is_float()) return MV::real(static_cast<long double>(j));
    MV m = j.is_array() ? MV::arr() : MV::obj();
    for (auto it = j.begin(); it != j.end(); ++it)
    {
        auto e = model_of(*it);
        if (j.is_array())
            m.a.push_back(*e);
        else
            m.o[it.key()] = *e;
    }
    return m;
}

template <typename T>
std::optional<MV> model_of(T const &v)
{
    if constexpr (std::is_same_v<T, std::nullptr_t>)
        return MV();
    else if constexpr (std::is_same_v<T, bool>)
        return MV::boolean(v);
    else if constexpr (std::is_integral_v<T> && std::is_signed_v<T>)
        return MV::integer(v);
    else if constexpr (std::is_integral_v<T>)
        return MV::natural(v);
    else if constexpr (std::is_floating_point_v<T>)
        return MV::real(static_cast<long double>(v));
    else if constexpr (Text<T>)
    {
        auto t = json_text_of(v);
        return t ? std::optional<MV>(MV::str(*t)) : std::nullopt;
    }
    else if constexpr (Map<T>)
    {
        MV m = MV::obj();
        for (auto const &[k, e] : v)
        {
            auto key = json_text_of(k);
            auto value = model_of(e);
            if (!key || !value)
                return std::nullopt;
            m.o.emplace(*key, *value);
        }
        return m;
    }
    else
    {
        MV m = MV::arr();
        for (auto const &e : v)
        {
            auto value = model_of(e);
            if (!value)
                return std::nullopt;
            m.a.push_back(*value);
        }
        return m;
    }
}

// --- model to C++: what converting the value to T must give --------------------------------------

template <typename T>
T expect(MV const &m, Outcome &o)
{
    if constexpr (std::is_same_v<T, fly::Json>)
        return ref::make(m);
    else if constexpr (std::is_same_v<T, std::nullptr_t>)
    {
        o.fails = m.k != MV::Null;
        return nullptr;
    }
    else if constexpr (std::is_same_v<T, bool>)
    {
        switch (m.k)
        {
            case MV::Null: return false;
            case MV::Bool: return m.b;
            case MV::Int: return m.i != 0;
            case MV::Uint: return m.u != 0;
            case MV::Flt: return m.f != 0;
            default: return m.size() != 0;
        }
    }
    else if constexpr (std::is_arithmetic_v<T>)
    {
        if (m.k == MV::Str)
        {
            auto v = fly::String::convert<T>(m.s);
            o.fails = o.fails || !v;
            return v.value_or(T());
        }
        if (m.k < MV::Int)
        {
            o.fails = true;
            return T();
        }
        long double const x = m.k == MV::Int ? static_cast<long double>(m.i) : m.k == MV::Uint ? static_cast<long double>(m.u) : m.f;
        if constexpr (std::is_integral_v<T>)
        {
            // only what is inside the target's range is specified
            if (std::isnan(x) || std::trunc(x) < static_cast<long double>(std::numeric_limits<T>::min()) || std::trunc(x) > static_cast<long double>(std::numeric_limits<T>::max()))
            {
                o.open = true;
                return T();
            }
            return static_cast<T>(std::trunc(x));
        }
        else
        {
            if (std::fabs(x) > static_cast<long double>(std::numeric_limits<T>::max()))
            {
                o.open = true;
                return T();
            }
            if (m.k == MV::Int)
                return static_cast<T>(m.i);
            if (m.k == MV::Uint)
                return static_cast<T>(m.u);
            return static_cast<T>(x);
        }
    }
    else if constexpr (Text<T>)
    {
        using C = typename T::value_type;
        std::string t;
        switch (m.k)
        {
            case MV::Str: t = m.s; break;
            case MV::Int: t = std::to_string(m.i); break;
            case MV::Uint: t = std::to_string(m.u); break;
            case MV::Flt: t = pbt::strf("%Lg", m.f); break;
            default: o.fails = true; return T();
        }
        return ref::encode_all<C>(*ref::decode_all<char>(t));
    }
    else if constexpr (Map<T>)
    {
        T r;
        if (m.k != MV::Obj)
        {
            o.fails = true;
            return r;
        }
        for (auto const &[k, v] : m.o)
        {
            using C = typename T::key_type::value_type;
            r.emplace(ref::encode_all<C>(*ref::decode_all<char>(k)), expect<typename T::mapped_type>(v, o));
        }
        return r;
    }
    else
    {
        T r {};
        if (m.k != MV::Arr)
        {
            o.fails = true;
            return r;
        }
        std::vector<typename T::value_type> v;
        std::size_t n = m.a.size();
        if constexpr (fixed_size<T>)
            n = std::min(n, r.size());
        for (std::size_t k = 0; k < n; ++k)
            v.push_back(expect<typename T::value_type>(m.a[k], o));
        if constexpr (fixed_size<T>)
            std::copy(v.begin(), v.end(), r.begin());
        else
            r = T(v.begin(), v.end());
        return r;
    }
}

// --- generation ---------------------------------------------------------------------------------

// Text that is mostly a valid body of a JSON string, sometimes with escapes, sometimes not valid.
template <typename C>
std::basic_string<C> text(pbt::Src &s, bool valid)
{
    std::string body = s.chance(1, 3) ? gen::key(s) : gen::json_text(s, 6);
    body = gen::json_string(s, body);
    body = body.substr(1, body.size() - 2);
    auto r = ref::encode_all<C>(*ref::decode_all<char>(body));
    if (!valid)
    {
        static char const *const bits[] = {"\"", "\\", "\n", "\\u", "\\ud800", "\\u12", "\\x", "\x1f"};
        if (s.flip())
            r.insert(s.below(r.size() + 1), 1, gen::unit<C>(s));
        else
        {
            std::string const b = bits[s.below(8)];
            std::basic_string<C> const w(b.begin(), b.end());
            r.insert(s.below(r.size() + 1), w);
        }
    }
    return r;
}

template <typename T>
T produce(pbt::Src &s, unsigned bad)
{
    if constexpr (std::is_same_v<T, fly::Json>)
        return ref::make(gen::value(s, 1, 3));
    else if constexpr (std::is_same_v<T, bool>)
        return s.flip();
    else if constexpr (std::is_integral_v<T>)
        return static_cast<T>(s.interesting());
    else if constexpr (std::is_floating_point_v<T>)
        return static_cast<T>(gen::real(s));
    else if constexpr (Text<T>)
    {
        using C = typename T::value_type;
        if (s.chance(1, 5))
        {
            auto const n = std::to_string(static_cast<std::int64_t>(s.interesting()));
            return T(n.begin(), n.end());
        }
        return text<C>(s, bad == 0 || !s.chance(1, bad));
    }
    else if constexpr (Map<T>)
    {
        T r;
        for (std::size_t k = s.below(5); k > 0; --k)
        {
            auto key = produce<typename T::key_type>(s, bad);
            r.emplace(std::move(key), produce<typename T::mapped_type>(s, bad));
        }
        return r;
    }
    else
    {
        T r {};
        if constexpr (fixed_size<T>)
        {
            for (auto &e : r)
                e = produce<typename T::value_type>(s, bad);
        }
        else
        {
            std::vector<typename T::value_type> v;
            for (std::size_t k = s.length(8); k > 0; --k)
                v.push_back(produce<typename T::value_type>(s, bad));
            r = T(v.begin(), v.end());
        }
        return r;
    }
}

// A JSON value that has a fair chance of converting to T.
template <typename T>
MV candidate(pbt::Src &s)
{
    if (s.chance(1, 12))
        return gen::value(s, 2, 3);
    if constexpr (Map<T>)
    {
        MV m = MV::obj();
        for (std::size_t k = s.below(5); k > 0; --k)
            m.o[gen::key(s)] = candidate<typename T::mapped_type>(s);
        return m;
    }
    else if constexpr (Sequence<T>)
    {
        MV m = MV::arr();
        for (std::size_t k = s.length(6); k > 0; --k)
            m.a.push_back(candidate<typename T::value_type>(s));
        return m;
    }
    else
    {
        switch (s.below(6))
        {
            case 0: return MV::str(std::to_string(static_cast<std::int64_t>(s.interesting())));
            case 1: return MV::str(gen::json_text(s, 6));
            case 2: return MV::str(pbt::strf("%.*Lg", static_cast<int>(s.below(18)), gen::real(s)));
            default: return gen::scalar(s);
        }
    }
}

// --- checks -------------------------------------------------------------------------------------

template <typename T>
bool equal(T const &a, T const &b)
{
    if constexpr (std::is_floating_point_v<T>)
        return (a == b && std::signbit(a) == std::signbit(b)) || (std::isnan(a) && std::isnan(b));
    else if constexpr (std::is_same_v<T, fly::Json>)
        return ref::diff(a, *model_of(b)).empty();
    else
        return a == b;
}

// JSON value (with model m) to T.
template <typename T>
void to(pbt::Src &s, fly::Json const &j, MV const &m, char const *type)
{
    Outcome o;
    T const want = expect<T>(m, o);
    if (o.open)
    {
        s.label("unrepresentable number");
        return;
    }
    std::optional<T> got;
    try
    {
        got.emplace(static_cast<T>(j));
    }
    catch (fly::JsonException const &)
    {
    }
    auto const d = ref::diff(j, m);
    PBT_CHECK(d.empty(), "conversion of %s to %s changed it: %s", ref::show(m).c_str(), type, d.c_str());
    PBT_CHECK(got.has_value() == !o.fails, "%s to %s: %s", ref::show(m).c_str(), type, got ? "converted" : "threw");
    if (!got)
    {
        s.label("conversion refused");
        return;
    }
    s.label(std::string("to ") + type);
    PBT_CHECK(equal(*got, want), "%s to %s: %s, expected %s", ref::show(m).c_str(), type, model_of(*got) ? ref::show(*model_of(*got)).c_str() : "?", model_of(want) ? ref::show(*model_of(want)).c_str() : "?");
    s.nontrivial();
}

// T to a JSON value, and back.
template <typename T>
void from(pbt::Src &s, char const *type)
{
    T const v = produce<T>(s, s.chance(1, 4) ? 3 : 0);
    auto const m = model_of(v);
    std::optional<fly::Json> j;
    bool const assign = s.flip();
    try
    {
        if (assign)
        {
            fly::Json target = 1;
            target = v;
            j.emplace(std::move(target));
        }
        else
            j.emplace(v);
    }
    catch (fly::JsonException const &)
    {
    }
    if (s.want_note())
        s.note(std::string(type) + " " + (m ? ref::show(*m) : "invalid"));
    PBT_CHECK(j.has_value() == m.has_value(), "%s %s: %s", type, m ? ref::show(*m).c_str() : "(invalid)", j ? "accepted" : "refused");
    if (!j)
    {
        s.label("construction refused");
        return;
    }
    auto const d = ref::diff(*j, *m);
    PBT_CHECK(d.empty(), "from %s: %s", type, d.c_str());
    to<T>(s, *j, *m, type);
}

template <typename T>
void both(pbt::Src &s, char const *type)
{
    if (s.flip())
        from<T>(s, type);
    else
    {
        MV const m = candidate<T>(s);
        if (s.want_note())
            s.note(ref::show(m) + " to " + type);
        to<T>(s, ref::make(m), m, type);
    }
}

// Swapping a JSON value with a T.
template <typename T>
void swap(pbt::Src &s, char const *type)
{
    MV const m = candidate<T>(s);
    T v = produce<T>(s, s.chance(1, 3) ? 2 : 0);
    T const before = v;
    auto const vm = model_of(v);
    Outcome o;
    T const want = expect<T>(m, o);
    constexpr MV::Kind kind = Text<T> ? MV::Str : Map<T> ? MV::Obj : MV::Arr;
    if (o.open)
        return;
    bool const fails = m.k != kind || o.fails || !vm;
    if (s.want_note())
        s.note("swap " + ref::show(m) + " with " + type + " " + (vm ? ref::show(*vm) : "invalid"));
    fly::Json j = ref::make(m);
    bool thrown = false;
    try
    {
        j.swap(v);
    }
    catch (fly::JsonException const &)
    {
        thrown = true;
    }
    PBT_CHECK(thrown == fails, "swap of %s with %s %s", ref::show(m).c_str(), type, thrown ? "threw" : "did not throw");
    auto const d = ref::diff(j, fails ? m : *vm);
    PBT_CHECK(d.empty(), "swap of %s with %s: %s", ref::show(m).c_str(), type, d.c_str());
    PBT_CHECK(equal(v, fails ? before : want), "swap of %s with %s left an unexpected %s", ref::show(m).c_str(), type, type);
    s.label(fails ? "swap refused" : "swap");
    if (!fails)
        s.nontrivial();
}

void numbers(pbt::Src &);
void strings(pbt::Src &);
void sequences(pbt::Src &);
void sets(pbt::Src &);
void maps(pbt::Src &);
void keys(pbt::Src &);

} // namespace j03
