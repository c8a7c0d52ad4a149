// J04: serialised JSON values parse back to equal values.
#define FLY_COMPILER_DISABLE_CONSTEVAL
#include "json_parse.hpp"
#include "quiet.hpp"

#include "fly/parser/json_parser.hpp"
#include "fly/types/string/string.hpp"

#include <sstream>

namespace {

// What the text of the value denotes: floating point numbers to the printed precision.
MV printed(MV const &m)
{
    MV r = m;
    if (m.k == MV::Flt)
    {
        if (!std::isfinite(m.f))
            return MV();
        r.f = std::strtold(pbt::strf("%Lg", m.f).c_str(), nullptr);
    }
    for (auto &e : r.a)
        e = printed(e);
    for (auto &[k, v] : r.o)
        v = printed(v);
    return r;
}

bool negative_zero(MV const &m)
{
    if (m.k == MV::Flt)
        return m.f == 0 && std::signbit(m.f);
    for (auto const &e : m.a)
        if (negative_zero(e))
            return true;
    for (auto const &[k, v] : m.o)
        if (negative_zero(v))
            return true;
    return false;
}

void compare(pbt::Src &s, fly::Json const &j, MV const &m)
{
    std::string const text = j.serialize();
    if (s.want_note())
        s.note(pbt::show(text));
    for (char c : text)
        PBT_CHECK(c >= 0x20 && c < 0x7f, "%s is written with the character %02x", ref::show(m).c_str(), static_cast<unsigned>(static_cast<unsigned char>(c)));
    MV const want = printed(m);
    ref::JsonText reference(text, {false, false, true});
    auto const denoted = reference.parse();
    PBT_CHECK(denoted.has_value(), "%s is written as %s, which is not JSON", ref::show(m).c_str(), pbt::show(text).c_str());
    auto d = ref::diff(ref::make(*denoted), want, true);
    PBT_CHECK(d.empty(), "%s is written as %s: %s", ref::show(m).c_str(), pbt::show(text).c_str(), d.c_str());
    if (reference.deepest <= 64)
    {
        using Features = fly::parser::JsonParser::Features;
        bool const compound = m.k == MV::Arr || m.k == MV::Obj;
        fly::parser::JsonParser parser(compound ? Features::Strict : Features::AllowAnyType);
        auto const parsed = parser.parse_string(text);
        PBT_CHECK(parsed.has_value(), "%s is written as %s, which the parser refuses", ref::show(m).c_str(), pbt::show(text).c_str());
        d = ref::diff(*parsed, want, true);
        PBT_CHECK(d.empty(), "%s is written as %s, which is parsed differently: %s", ref::show(m).c_str(), pbt::show(text).c_str(), d.c_str());
        if (!negative_zero(want))
            PBT_CHECK(parsed->serialize() == text, "%s is parsed and written as %s", pbt::show(text).c_str(), pbt::show(parsed->serialize()).c_str());
    }
    auto const formatted = fly::string::format("{}", j);
    PBT_CHECK(formatted == text, "formatted as %s, serialised as %s", pbt::show(formatted).c_str(), pbt::show(text).c_str());
    auto const wide = fly::string::format(L"{}", j);
    PBT_CHECK(wide == std::wstring(text.begin(), text.end()), "formatted as %s, serialised as %s", pbt::show(wide).c_str(), pbt::show(text).c_str());
    if (s.chance(1, 4))
    {
        auto const u16 = fly::string::format(u"{}", j);
        PBT_CHECK(u16 == std::u16string(text.begin(), text.end()), "formatted as %s", pbt::show(u16).c_str());
        auto const padded = fly::string::format("<{:>20}>", j);
        PBT_CHECK(padded == "<" + std::string(text.size() < 20 ? 20 - text.size() : 0, ' ') + text + ">", "formatted as %s", pbt::show(padded).c_str());
    }
    d = ref::diff(j, m);
    PBT_CHECK(d.empty(), "serialising changed the value: %s", d.c_str());
}

void values(pbt::Src &s)
{
    MV m = gen::value(s, 4, 5);
    fly::Json j = ref::make(m);
    if (s.chance(1, 3))
    {
        // the result of operations that do not go through a constructor
        for (std::size_t k = 1 + s.below(3); k > 0; --k)
        {
            try
            {
                switch (s.below(6))
                {
                    case 0:
                    {
                        std::size_t const n = s.below(8);
                        j.resize(n);
                        m.k == MV::Str ? m.s.resize(n) : m.a.resize(n);
                        break;
                    }
                    case 1:
                    {
                        MV const e = gen::value(s, 1, 3);
                        j.push_back(ref::make(e));
                        if (m.k == MV::Null)
                            m = MV::arr();
                        m.a.push_back(e);
                        break;
                    }
                    case 2:
                    {
                        std::string const key = gen::json_text(s, 4);
                        MV const e = gen::scalar(s);
                        j[ref::json_escape(key)] = ref::make(e);
                        if (m.k == MV::Null)
                            m = MV::obj();
                        m.o[key] = e;
                        break;
                    }
                    case 3:
                    {
                        std::string const text = gen::json_text(s, 6);
                        std::string other = ref::json_escape(text);
                        j.swap(other);
                        m.s = text;
                        break;
                    }
                    case 4:
                    {
                        std::size_t const at = s.below(5);
                        if (m.k == MV::Arr && at < m.a.size())
                        {
                            std::size_t const n = s.below(6);
                            j[at].resize(n);
                            m.a[at].k == MV::Str ? m.a[at].s.resize(n) : m.a[at].a.resize(n);
                        }
                        break;
                    }
                    default:
                        j.clear();
                        m.s.clear(), m.a.clear(), m.o.clear(), m.b = false, m.i = 0, m.u = 0, m.f = 0;
                }
            }
            catch (fly::JsonException const &)
            {
            }
        }
    }
    compare(s, j, m);
    if (m.size() > 0)
        s.nontrivial();
}

void strings(pbt::Src &s)
{
    MV m = MV::str(gen::json_text(s, 12));
    if (s.flip())
    {
        MV o = MV::obj();
        o.o[m.s] = MV::str(gen::json_text(s, 6));
        m = o;
    }
    compare(s, ref::make(m), m);
    s.nontrivial();
}

void numbers(pbt::Src &s)
{
    MV m;
    switch (s.below(4))
    {
        case 0: m = MV::integer(static_cast<std::int64_t>(s.interesting())); break;
        case 1: m = MV::natural(s.interesting()); break;
        case 2: m = MV::real(gen::real(s)); break;
        default:
            switch (s.below(8))
            {
                case 0: m = MV::real(std::numeric_limits<long double>::max()); break;
                case 1: m = MV::real(std::numeric_limits<long double>::denorm_min()); break;
                case 2: m = MV::real(-std::numeric_limits<long double>::infinity()); break;
                case 3: m = MV::real(std::numeric_limits<long double>::quiet_NaN()); break;
                default: m = MV::real(std::ldexp(static_cast<long double>(s.u64()), static_cast<int>(s.range(-16000, 16000))) * (s.flip() ? 1 : -1)); break;
            }
    }
    // printing rounds the largest numbers up to ones that no type holds
    if (m.k == MV::Flt && std::isfinite(m.f) && std::fabs(m.f) > 1.18973e+4932L)
        m = MV::real(1.18973e+4932L);
    if (m.k == MV::Flt && m.f != 0 && std::fabs(m.f) < 3.37e-4932L)
        m = MV::real(0);
    MV a = m;
    if (s.flip())
    {
        a = MV::arr();
        a.a.push_back(m);
    }
    compare(s, ref::make(a), a);
    s.nontrivial();
}

void deep(pbt::Src &s)
{
    std::size_t const depth = 1 + s.below(1000);
    MV m = gen::scalar(s);
    for (std::size_t k = 0; k < depth; ++k)
    {
        MV o = s.flip() ? MV::arr() : MV::obj();
        if (o.k == MV::Arr)
            o.a.push_back(std::move(m));
        else
            o.o[gen::key(s)] = std::move(m);
        m = std::move(o);
    }
    compare(s, ref::make(m), m);
    s.nontrivial();
}

} // namespace

int main(int argc, char **argv)
{
    quiet_logger();
    return pbt::main(argc, argv, {"J04",
        "Values built from constructors (any string content and keys, integers at type boundaries, floating point numbers of any magnitude including non-finite ones, nesting to 1000 levels) and from operations (resize, append, keyed access, swap, clear) are serialised. The text must be printable ASCII, must be JSON denoting the value according to an independent parser and to the library's strict parser, must be what formatting gives for three character types, and must be reproduced by serialising what was parsed. Non-trivial: the value is not empty.",
        {{"values", values, 60000, 2500000}, {"strings", strings, 100000, 4000000}, {"numbers", numbers, 100000, 4000000}, {"deep", deep, 60, 3000}},
        {}, {"floating point numbers compare at the six significant digits that are printed, and infinity and NaN, which JSON cannot represent, are null", "the library's parser is consulted to a nesting of 64"}});
}
