#pragma once
// A model of format strings: arguments with their reference rendering, the grammar documented at
// BasicFormatSpecifier, and packs of argument types to format with the library.
#define FLY_COMPILER_DISABLE_CONSTEVAL
#include "str_common.hpp"

#include "fly/types/string/string.hpp"

#include <charconv>
#include <cmath>
#include <cstdio>
#include <deque>
#include <limits>
#include <tuple>
#include <variant>

namespace fmtm {

enum class Kind
{
    Char,
    Str,
    Ptr,
    Int,
    Float,
    Bool,
    Opaque,  // user-defined, without a parser
    Derived, // user-defined, extends the formatter of int
    Custom,  // user-defined, with its own parser: "" or "r"
};

// user-defined types
struct Opaque
{
    int value;
};
struct Derived
{
    int value;
};
struct Custom
{
    int value;
};

struct Arg
{
    Kind kind {Kind::Int};
    bool negative {false};  // Int, Char, Bool, Ptr, user-defined: sign and magnitude
    std::uint64_t mag {0};
    int precision_class {1}; // Float: 0 float, 1 double, 2 long double
    long double real {0};
    std::variant<std::string, std::wstring, std::u8string, std::u16string, std::u32string> text;
};

struct Spec
{
    std::optional<std::uint32_t> fill;
    char align {0};
    char sign {0};
    bool alt {false};
    bool zero {false};
    std::optional<std::size_t> width;
    std::optional<std::size_t> width_arg;
    std::optional<std::size_t> precision;
    std::optional<std::size_t> precision_arg;
    bool locale {false};
    char type {0};
    bool custom {false};
};

struct Field
{
    std::size_t arg {0};
    Spec spec;
};

template <typename C>
struct Item
{
    std::basic_string<C> literal;
    std::optional<Field> field;
};

inline bool is_numeric(char t)
{
    return t != 0 && std::strchr("bBodxXaAeEfFgG", t) != nullptr;
}
inline char default_type(Kind k)
{
    switch (k)
    {
        case Kind::Char: return 'c';
        case Kind::Str: return 's';
        case Kind::Ptr: return 'p';
        case Kind::Int: return 'd';
        case Kind::Float: return 'g';
        case Kind::Bool: return 's';
        case Kind::Derived: return 'd';
        default: return 0;
    }
}
inline bool type_fits(Kind k, char t)
{
    switch (k)
    {
        case Kind::Char:
        case Kind::Int:
        case Kind::Derived: return std::strchr("cbBodxX", t) != nullptr;
        case Kind::Str: return t == 's';
        case Kind::Ptr: return t == 'p';
        case Kind::Float: return std::strchr("aAeEfFgG", t) != nullptr;
        case Kind::Bool: return std::strchr("csbBodxX", t) != nullptr;
        default: return false;
    }
}

// ---------------------------------------------------------------------------------------------
// rendering

template <typename C>
std::basic_string<C> ascii(std::string const &s)
{
    return std::basic_string<C>(s.begin(), s.end());
}

template <typename C>
std::basic_string<C> align(std::basic_string<C> body, std::size_t size, std::size_t width, Spec const &spec, char fallback)
{
    std::size_t const pad = width > size ? width - size : 0;
    C const fill = static_cast<C>(spec.fill.value_or(' '));
    char const a = spec.align ? spec.align : fallback;
    std::size_t const left = a == '<' ? 0 : a == '>' ? pad : pad / 2;
    return std::basic_string<C>(left, fill) + body + std::basic_string<C>(pad - left, fill);
}

inline std::string upper(std::string s)
{
    for (auto &c : s)
        c = static_cast<char>(c >= 'a' && c <= 'z' ? c - 32 : c);
    return s;
}

template <typename C>
std::basic_string<C> number(std::string sign_and_prefix, std::string digits, std::size_t width, Spec const &spec, bool may_zero)
{
    if (spec.zero && !spec.align && may_zero)
    {
        std::size_t const n = sign_and_prefix.size() + digits.size();
        if (width > n)
            digits.insert(0, width - n, '0');
        return ascii<C>(sign_and_prefix + digits);
    }
    auto const all = sign_and_prefix + digits;
    return align<C>(ascii<C>(all), all.size(), width, spec, '>');
}

inline std::string sign_of(bool negative, char sign)
{
    return negative ? "-" : sign == '+' ? "+" : sign == ' ' ? " " : "";
}

template <typename C>
std::basic_string<C> render_integer(bool negative, std::uint64_t mag, Spec const &spec, char type, std::size_t width)
{
    if (type == 'c')
    {
        if (negative || mag > static_cast<std::uint64_t>(std::numeric_limits<C>::max()))
            return {};
        return align<C>(std::basic_string<C>(1, static_cast<C>(mag)), 1, width, spec, '>');
    }
    unsigned const base = type == 'd' ? 10 : type == 'o' ? 8 : (type == 'b' || type == 'B') ? 2 : 16;
    std::string digits;
    do
    {
        digits.insert(digits.begin(), "0123456789abcdef"[mag % base]);
        mag /= base;
    } while (mag != 0);
    std::string prefix = sign_of(negative, spec.sign);
    if (type == 'X')
        digits = upper(digits);
    if (spec.alt)
        prefix += type == 'o' ? "0" : std::string("0") + type;
    return number<C>(prefix, digits, width, spec, true);
}

template <typename T>
std::string hex_float(T v, int precision)
{
    std::vector<char> b(20000);
    auto const r = std::to_chars(b.data(), b.data() + b.size(), v, std::chars_format::hex, precision);
    return std::string(b.data(), r.ptr);
}

inline std::string real_digits(Arg const &a, bool alt, char type, int precision)
{
    long double const v = std::fabs(a.real);
    if (std::isinf(v) || std::isnan(v))
    {
        std::string const s = std::isinf(v) ? "inf" : "nan";
        return std::strchr("AEFG", type) ? upper(s) : s;
    }
    if (type == 'a' || type == 'A')
    {
        std::string s = a.precision_class == 0 ? hex_float(static_cast<float>(v), precision) :
            a.precision_class == 1             ? hex_float(static_cast<double>(v), precision) :
                                                 hex_float(v, precision);
        if (alt && s.find('.') == std::string::npos)
            s.insert(s.find('p'), ".");
        return type == 'A' ? upper(s) : s;
    }
    char f[16];
    if (alt && (type == 'g' || type == 'G'))
    {
        // spelled out, because some C libraries drop the zeros when rounding adds a digit
        int const p = precision == 0 ? 1 : precision;
        std::vector<char> e(30000);
        std::snprintf(e.data(), e.size(), "%.*Le", p - 1, v);
        int const x = std::atoi(std::strchr(e.data(), 'e') + 1);
        bool const fixed = x >= -4 && x < p;
        type = fixed ? 'f' : type == 'g' ? 'e' : 'E';
        precision = fixed ? p - 1 - x : p - 1;
    }
    std::snprintf(f, sizeof f, "%%%s.*L%c", alt ? "#" : "", type);
    std::vector<char> b(30000);
    int const n = std::snprintf(b.data(), b.size(), f, precision, v);
    return std::string(b.data(), static_cast<std::size_t>(n));
}

template <typename C>
std::basic_string<C> render(Field const &f, std::vector<Arg> const &args)
{
    auto const &a = args[f.arg];
    auto const &sp = f.spec;
    auto resolve = [&](std::optional<std::size_t> lit, std::optional<std::size_t> arg, std::size_t fallback) {
        if (arg)
            return args[*arg].negative ? fallback : static_cast<std::size_t>(args[*arg].mag);
        return lit.value_or(fallback);
    };
    std::size_t const width = resolve(sp.width, sp.width_arg, 0);
    char const type = sp.type ? sp.type : default_type(a.kind);
    switch (a.kind)
    {
        case Kind::Opaque: return ascii<C>("<" + std::to_string(a.mag) + ">");
        case Kind::Custom: return ascii<C>((sp.custom ? "r" : "n") + std::to_string(a.mag));
        case Kind::Char:
        case Kind::Int:
        case Kind::Derived: return render_integer<C>(a.negative, a.mag, sp, type, width);
        case Kind::Ptr:
        {
            Spec s = sp;
            s.alt = true;
            return render_integer<C>(false, a.mag, s, 'x', width);
        }
        case Kind::Bool:
            if (type == 's')
            {
                std::string const t = a.mag ? "true" : "false";
                return align<C>(ascii<C>(t), t.size(), width, sp, '<');
            }
            return render_integer<C>(false, a.mag, sp, type, width);
        case Kind::Float:
        {
            int const precision = static_cast<int>(resolve(sp.precision, sp.precision_arg, 6));
            return number<C>(sign_of(std::signbit(a.real), sp.sign), real_digits(a, sp.alt, type, precision), width, sp, std::isfinite(a.real));
        }
        case Kind::Str:
            return std::visit(
                [&](auto const &text) {
                    using T = std::decay_t<decltype(text)>;
                    using D = typename T::value_type;
                    auto const cut = text.substr(0, resolve(sp.precision, sp.precision_arg, std::string::npos));
                    std::basic_string<C> body;
                    if constexpr (std::is_same_v<C, D>)
                        body = cut;
                    else if (auto cps = ref::decode_all<D>(cut))
                        body = ref::encode_all<C>(*cps);
                    return align<C>(body, cut.size(), width, sp, '<');
                },
                a.text);
    }
    return {};
}

template <typename C>
std::basic_string<C> render(std::vector<Item<C>> const &items, std::vector<Arg> const &args)
{
    std::basic_string<C> r;
    for (auto const &i : items)
        r += i.field ? render<C>(*i.field, args) : i.literal;
    return r;
}

// ---------------------------------------------------------------------------------------------
// grammar

enum class Verdict
{
    Valid,
    Invalid,
    Open, // "{:}" followed by an alignment character may be read in two ways
};

template <typename C>
struct Parsed
{
    Verdict verdict {Verdict::Valid};
    char const *why {""};
    std::vector<Item<C>> items;
    bool huge {false}; // a width or precision that would need more memory than a test may use
    std::size_t fields {0};
};

template <typename C>
class Grammar
{
public:
    Grammar(std::basic_string_view<C> text, std::vector<Arg> const &args) : m_text(text), m_args(args) {}

    Parsed<C> run()
    {
        try
        {
            parse();
        }
        catch (char const *why)
        {
            m_out.verdict = Verdict::Invalid;
            m_out.why = why;
        }
        catch (Verdict v)
        {
            m_out.verdict = v;
        }
        return std::move(m_out);
    }

private:
    std::uint32_t at(std::size_t ahead = 0) const { return m_pos + ahead < m_text.size() ? ref::unit(m_text[m_pos + ahead]) : 0xffffffffu; }
    bool end() const { return m_pos >= m_text.size(); }
    bool eat(char c)
    {
        if (end() || at() != static_cast<unsigned char>(c))
            return false;
        ++m_pos;
        return true;
    }
    std::optional<std::uint64_t> digits()
    {
        if (end() || at() < '0' || at() > '9')
            return {};
        unsigned __int128 v = 0;
        while (!end() && at() >= '0' && at() <= '9')
        {
            v = v * 10 + (at() - '0');
            if (v > UINT64_MAX)
                throw "number out of range";
            ++m_pos;
        }
        return static_cast<std::uint64_t>(v);
    }
    std::size_t position()
    {
        std::size_t p = 0;
        if (auto n = digits())
        {
            m_manual = true;
            p = *n;
        }
        else
        {
            m_automatic = true;
            p = m_next++;
        }
        if (m_manual && m_automatic)
            throw "mixed positions";
        if (p >= m_args.size())
            throw "position out of range";
        return p;
    }
    std::size_t nested()
    {
        std::size_t const p = position();
        if (!eat('}'))
            throw "unclosed nested field";
        if (m_args[p].kind != Kind::Int)
            throw "nested field is not an integer";
        if (!m_args[p].negative && m_args[p].mag > 5000)
            m_out.huge = true;
        return p;
    }
    Spec spec(Kind kind)
    {
        Spec s;
        if (kind == Kind::Opaque)
            return s;
        if (kind == Kind::Custom)
        {
            s.custom = eat('r');
            return s;
        }
        auto is_align = [](std::uint32_t c) { return c == '<' || c == '>' || c == '^'; };
        if (is_align(at(1)))
        {
            if (at() == '}')
                throw Verdict::Open;
            if (at() == '{')
                throw "brace as fill";
            if (at() >= 0x80)
                throw "non-ascii fill";
            s.fill = at();
            ++m_pos;
        }
        if (is_align(at()))
            s.align = static_cast<char>(m_text[m_pos++]);
        if (at() == '+' || at() == '-' || at() == ' ')
            s.sign = static_cast<char>(m_text[m_pos++]);
        s.alt = eat('#');
        bool const zero = eat('0');
        s.zero = zero && !s.align;
        if (auto n = digits())
        {
            s.width = *n;
            if (*n == 0)
                throw "zero width";
            if (*n > 5000)
                m_out.huge = true;
        }
        else if (eat('{'))
            s.width_arg = nested();
        if (eat('.'))
        {
            if (auto n = digits())
            {
                s.precision = *n;
                if (*n > 5000 && kind == Kind::Float)
                    m_out.huge = true;
            }
            else if (eat('{'))
                s.precision_arg = nested();
            else
                throw "no precision";
        }
        s.locale = eat('L');
        if (!end() && at() < 0x80 && at() != 0 && std::strchr("cspbBodxXaAeEfFgG", static_cast<int>(at())))
            s.type = static_cast<char>(m_text[m_pos++]);
        char const type = s.type ? s.type : default_type(kind);
        if (!type_fits(kind, type))
            throw "type does not apply";
        if (s.sign && !is_numeric(type))
            throw "sign does not apply";
        if (s.alt && (!is_numeric(type) || type == 'd'))
            throw "alternate form does not apply";
        if (s.zero && !is_numeric(type))
            throw "zero padding does not apply";
        if ((s.precision || s.precision_arg) && kind != Kind::Str && kind != Kind::Float)
            throw "precision does not apply";
        if (s.locale && kind != Kind::Int && kind != Kind::Float && kind != Kind::Bool && kind != Kind::Derived)
            throw "locale does not apply";
        return s;
    }
    void parse()
    {
        std::basic_string<C> literal;
        auto flush = [&] {
            if (!literal.empty())
                m_out.items.push_back({literal, {}});
            literal.clear();
        };
        while (!end())
        {
            if (eat('{'))
            {
                if (eat('{'))
                {
                    literal += static_cast<C>('{');
                    continue;
                }
                flush();
                if (++m_out.fields > 64)
                    throw "too many fields";
                Field f;
                f.arg = position();
                if (eat(':'))
                    f.spec = spec(m_args[f.arg].kind);
                if (!eat('}'))
                    throw "unclosed field";
                m_out.items.push_back({{}, f});
            }
            else if (eat('}'))
            {
                if (!eat('}'))
                    throw "lone closing brace";
                literal += static_cast<C>('}');
            }
            else
                literal += m_text[m_pos++];
        }
        flush();
    }

    std::basic_string_view<C> m_text;
    std::vector<Arg> const &m_args;
    Parsed<C> m_out;
    std::size_t m_pos {0};
    std::size_t m_next {0};
    bool m_manual {false}, m_automatic {false};
};

// ---------------------------------------------------------------------------------------------
// generation

inline std::size_t small_number(pbt::Src &s, std::size_t max)
{
    switch (s.weighted({5, 3, 1}))
    {
        case 0: return s.below(12);
        case 1: return s.below(70);
        default: return s.below(max + 1);
    }
}

// A spec that applies to args[arg]. In automatic mode, next is the position a nested field takes.
inline Spec spec(pbt::Src &s, std::vector<Arg> const &args, std::size_t arg, bool automatic, std::size_t &next)
{
    Spec sp;
    Kind const kind = args[arg].kind;
    if (kind == Kind::Opaque)
        return sp;
    if (kind == Kind::Custom)
    {
        sp.custom = s.flip();
        return sp;
    }
    auto nested = [&]() -> std::optional<std::size_t> {
        auto fits = [&](std::size_t p) { return p < args.size() && args[p].kind == Kind::Int && (args[p].negative || args[p].mag <= 400); };
        if (automatic)
            return fits(next) ? std::optional<std::size_t>(next++) : std::nullopt;
        std::vector<std::size_t> ok;
        for (std::size_t p = 0; p < args.size(); ++p)
            if (fits(p))
                ok.push_back(p);
        if (ok.empty())
            return {};
        return s.pick(ok);
    };
    if (s.flip())
    {
        std::string types;
        for (char t : std::string("cspbBodxXaAeEfFgG"))
            if (type_fits(kind, t))
                types += t;
        sp.type = types[s.below(types.size())];
    }
    char const type = sp.type ? sp.type : default_type(kind);
    if (s.chance(2, 5))
    {
        sp.align = "<>^"[s.below(3)];
        if (s.flip())
        {
            char c = s.flip() ? "*#0+- .1<>^:L_dx"[s.below(16)] : static_cast<char>(s.below(0x80));
            if (c == '{' || c == '}')
                c = '|';
            sp.fill = static_cast<unsigned char>(c);
        }
    }
    if (is_numeric(type))
    {
        if (s.chance(2, 5))
            sp.sign = "+- "[s.below(3)];
        if (type != 'd')
            sp.alt = s.chance(2, 5);
        sp.zero = s.chance(2, 5) && !sp.align;
    }
    if (s.chance(3, 5))
    {
        if (s.chance(1, 3))
            sp.width_arg = nested();
        if (!sp.width_arg)
            sp.width = 1 + small_number(s, 400);
    }
    if ((kind == Kind::Str || kind == Kind::Float) && s.chance(3, 5))
    {
        if (s.chance(1, 3))
            sp.precision_arg = nested();
        if (!sp.precision_arg)
            sp.precision = small_number(s, 400);
    }
    if (kind == Kind::Int || kind == Kind::Float || kind == Kind::Bool || kind == Kind::Derived)
        sp.locale = s.chance(1, 8);
    return sp;
}

inline std::string spec_text(Spec const &sp, bool automatic)
{
    auto nested = [&](std::size_t p) { return automatic ? std::string("{}") : "{" + std::to_string(p) + "}"; };
    std::string t;
    if (sp.custom)
        return "r";
    if (sp.fill)
        t += static_cast<char>(*sp.fill);
    if (sp.align)
        t += sp.align;
    if (sp.sign)
        t += sp.sign;
    if (sp.alt)
        t += '#';
    if (sp.zero)
        t += '0';
    if (sp.width)
        t += std::to_string(*sp.width);
    if (sp.width_arg)
        t += nested(*sp.width_arg);
    if (sp.precision)
        t += "." + std::to_string(*sp.precision);
    if (sp.precision_arg)
        t += "." + nested(*sp.precision_arg);
    if (sp.locale)
        t += 'L';
    if (sp.type)
        t += sp.type;
    return t;
}

template <typename C>
void escape_into(std::basic_string<C> &text, std::basic_string<C> const &literal)
{
    for (C c : literal)
    {
        text += c;
        if (ref::unit(c) == '{' || ref::unit(c) == '}')
            text += c;
    }
}

// A well-formed format string for the arguments.
template <typename C>
std::basic_string<C> format_text(pbt::Src &s, std::vector<Arg> const &args, std::size_t max_fields)
{
    std::basic_string<C> text;
    bool const automatic = s.flip();
    std::size_t next = 0;
    std::size_t const n = 1 + s.below(max_fields);
    for (std::size_t i = 0; i < n; ++i)
    {
        if (s.chance(1, 3))
        {
            auto const literal = gen::maybe_broken<C>(s, 6, 1, 4);
            escape_into(text, literal.substr(0, 12));
        }
        if (s.chance(1, 8))
            text += ascii<C>(s.flip() ? "{{" : "}}");
        std::size_t arg = 0;
        if (automatic)
        {
            if (next >= args.size())
                break;
            arg = next++;
        }
        else
        {
            if (args.empty())
                break;
            arg = s.below(args.size());
        }
        auto const sp = spec(s, args, arg, automatic, next);
        text += ascii<C>("{" + (automatic ? "" : std::to_string(arg)));
        auto const t = spec_text(sp, automatic);
        if (!t.empty() || s.chance(1, 4))
            text += ascii<C>(":" + t);
        text += ascii<C>("}");
    }
    if (s.chance(1, 3))
        escape_into(text, gen::maybe_broken<C>(s, 4, 1, 4).substr(0, 8));
    return text;
}

inline long double real(pbt::Src &s)
{
    long double v = 0;
    switch (s.weighted({4, 3, 3, 2, 2, 2, 1, 2}))
    {
        case 0: v = static_cast<long double>(s.range(-20, 20)) / 8; break;
        case 1: v = static_cast<long double>(s.range(-99999, 99999)) / static_cast<long double>(s.pick({1, 10, 100, 1000, 10000, 100000})); break;
        case 2:
        {
            std::uint64_t const bits = s.u64();
            double d = 0;
            std::memcpy(&d, &bits, 8);
            v = d;
            break;
        }
        case 3: v = std::pow(10.0L, static_cast<long double>(s.range(-40, 40))) * (s.chance(1, 2) ? 1 : 9.9999995L); break;
        case 4: v = std::ldexp(static_cast<long double>(1 + s.below(16)) / 16, static_cast<int>(s.range(-1080, 1024))); break;
        case 5: v = s.pick({0.0L, -0.0L, 0.5L, 1.5L, 2.5L, 0.05L, 0.15L, 0.25L, 9.5L, 99.5L, 999999.5L, 1e5L, 1e6L, 123456.0L, 1234567.0L, 1e-4L, 1e-5L, 0.0001234L, 1e15L, 1e16L, 1e60L, 1e300L}); break;
        case 6: v = s.pick({static_cast<long double>(INFINITY), -static_cast<long double>(INFINITY), static_cast<long double>(NAN), -static_cast<long double>(NAN), static_cast<long double>(std::numeric_limits<double>::max()), static_cast<long double>(std::numeric_limits<double>::denorm_min()), static_cast<long double>(std::numeric_limits<double>::min()), static_cast<long double>(std::numeric_limits<float>::max())}); break;
        default: v = static_cast<long double>(s.interesting()); break;
    }
    return s.flip() ? -v : v;
}

// Makes a value of type T together with its model.
template <typename T>
T value(pbt::Src &s, Arg &a)
{
    if constexpr (std::is_same_v<T, Opaque> || std::is_same_v<T, Custom> || std::is_same_v<T, Derived>)
    {
        a.kind = std::is_same_v<T, Opaque> ? Kind::Opaque : std::is_same_v<T, Custom> ? Kind::Custom : Kind::Derived;
        int v = static_cast<int>(s.below(1000));
        a.mag = static_cast<std::uint64_t>(v);
        if (a.kind == Kind::Derived && s.flip())
        {
            a.negative = v != 0;
            v = -v;
        }
        return T {v};
    }
    else if constexpr (std::is_same_v<T, bool>)
    {
        a.kind = Kind::Bool;
        a.mag = s.below(2);
        return a.mag != 0;
    }
    else if constexpr (fly::StandardCharacter<T> || std::is_integral_v<T>)
    {
        a.kind = fly::StandardCharacter<T> ? Kind::Char : Kind::Int;
        T v = static_cast<T>(s.interesting());
        if (a.kind == Kind::Char && s.chance(2, 3))
            v = static_cast<T>(0x20 + s.below(0x5f));
        if (a.kind == Kind::Int && s.flip())
            v = static_cast<T>(s.range(-3, 80));
        a.negative = v < T {0};
        a.mag = a.negative ? ~static_cast<std::uint64_t>(static_cast<std::int64_t>(v)) + 1 : static_cast<std::uint64_t>(v);
        return v;
    }
    else if constexpr (std::is_floating_point_v<T>)
    {
        a.kind = Kind::Float;
        a.precision_class = sizeof(T) == 4 ? 0 : sizeof(T) == 8 ? 1 : 2;
        T v = static_cast<T>(real(s));
        if (a.precision_class == 2 && s.chance(1, 8))
            v = static_cast<T>(std::ldexp(static_cast<long double>(s.u64() | 1), static_cast<int>(s.range(-16445, 16300))));
        a.real = v;
        return v;
    }
    else if constexpr (std::is_null_pointer_v<T>)
    {
        a.kind = Kind::Ptr;
        return nullptr;
    }
    else if constexpr (std::is_pointer_v<T>)
    {
        a.kind = Kind::Ptr;
        a.mag = s.interesting();
        return reinterpret_cast<T>(static_cast<std::uintptr_t>(a.mag));
    }
    else
    {
        using D = typename T::value_type;
        a.kind = Kind::Str;
        // precision counts units of the argument: mostly ASCII, so that it cannot split a code point
        std::basic_string<D> t;
        if (s.chance(2, 3))
        {
            std::size_t const n = s.length(60);
            for (std::size_t i = 0; i < n; ++i)
                t += static_cast<D>(0x20 + s.below(0x5f));
        }
        else
            t = gen::maybe_broken<D>(s, 12, 1, 5);
        a.text = t;
        return t;
    }
}

// Pointers and views to strings are kept alive by the string they refer to.
template <typename C>
struct View
{
    using value_type = C;
    View() = default;
    View(std::basic_string<C> const &t) : owner(t) {}
    std::basic_string<C> owner;
};
template <typename C>
struct Pointer
{
    using value_type = C;
    Pointer() = default;
    Pointer(std::basic_string<C> const &t) : owner(t) {}
    std::basic_string<C> owner;
};

template <typename T>
T const &pass(T const &t)
{
    return t;
}
template <typename C>
std::basic_string_view<C> pass(View<C> const &v)
{
    return v.owner;
}
template <typename C>
C const *pass(Pointer<C> const &v)
{
    return v.owner.c_str();
}

template <typename C>
struct Formatted
{
    bool error {false};
    std::string message;
    std::basic_string<C> out;
    std::basic_string<C> via_iterator;
};

template <typename C, typename... Ps>
void call(C const (&text)[1025], std::basic_string<C> const &prefix, bool parse_only, Formatted<C> &r, Ps const &...args)
{
    using FS = fly::string::FormatString<C, Ps const &...>;
    FS fs(text);
    r.error = fs.context().has_error();
    r.message = fs.context().error();
    if (parse_only && !r.error)
        return;
    r.out = fly::string::format(std::move(fs), args...);
    FS again(text);
    std::deque<C> q;
    fly::string::format_to(std::back_inserter(q), std::move(again), args...);
    r.via_iterator.assign(q.begin(), q.end());
    if (!r.error)
    {
        PBT_CHECK(r.out.substr(0, prefix.size()) == prefix, "literal prefix was changed");
        r.out.erase(0, prefix.size());
        r.via_iterator.erase(0, std::min(prefix.size(), r.via_iterator.size()));
    }
}

// The library's constructor takes an array; text is preceded by literal characters to get the
// fixed size, so that its end is the end of the array.
template <typename C, typename... Ts>
struct Pack
{
    std::tuple<Ts...> values;
    std::vector<Arg> args;

    void generate(pbt::Src &s)
    {
        args.resize(sizeof...(Ts));
        generate(s, std::index_sequence_for<Ts...> {});
    }
    template <std::size_t... I>
    void generate([[maybe_unused]] pbt::Src &s, std::index_sequence<I...>)
    {
        ((std::get<I>(values) = value_of<Ts>(s, args[I])), ...);
    }
    template <typename T>
    static T value_of(pbt::Src &s, Arg &a)
    {
        if constexpr (requires { typename T::value_type; std::declval<T>().owner; })
        {
            auto t = value<std::basic_string<typename T::value_type>>(s, a);
            if constexpr (std::is_same_v<T, Pointer<typename T::value_type>>)
            {
                t = t.substr(0, t.find(typename T::value_type {}));
                a.text = t;
            }
            return T(t);
        }
        else
            return value<T>(s, a);
    }

    Formatted<C> format(std::basic_string<C> const &text, bool parse_only) const
    {
        Formatted<C> r;
        std::basic_string<C> const prefix(1024 - text.size(), static_cast<C>('~'));
        auto const all = prefix + text;
        gen::Exact<C> const exact(std::basic_string_view<C>(all.c_str(), 1025));
        auto const &array = *reinterpret_cast<C const(*)[1025]>(exact.data.get());
        std::apply([&](auto const &...v) { call<C>(array, prefix, parse_only, r, pass(v)...); }, values);
        return r;
    }
};

template <typename C, typename F>
void with_pack(pbt::Src &s, F f)
{
    auto run = [&](auto pack) {
        pack.generate(s);
        f(pack);
    };
    switch (s.weighted({6, 6, 6, 6, 2, 6, 3, 1}))
    {
        case 0: return run(Pack<C, int, std::string, double, char, bool> {});
        case 1: return run(Pack<C, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long> {});
        case 2: return run(Pack<C, float, int, double, unsigned long long, long double, int> {});
        case 3: return run(Pack<C, std::string, int, std::wstring, std::u8string, int, std::u16string, std::u32string, View<char>, Pointer<char>, Pointer<char16_t>> {});
        case 4: return run(Pack<C, void *, int const *, std::nullptr_t, unsigned char> {});
        case 5: return run(Pack<C, char, int, wchar_t, char8_t, char16_t, char32_t, bool, long long> {});
        case 6: return run(Pack<C, Opaque, Derived, int, Custom, double> {});
        default: return run(Pack<C> {});
    }
}

template <typename C>
std::string describe(std::basic_string<C> const &text, std::vector<Arg> const &args)
{
    std::string r = "format " + pbt::show(text, 1000) + " with";
    for (auto const &a : args)
    {
        r += " ";
        if (a.kind == Kind::Str)
            std::visit([&](auto const &t) { r += pbt::show(t); }, a.text);
        else if (a.kind == Kind::Float)
            r += pbt::strf("%.21Lg(%La)", a.real, a.real);
        else
            r += (a.negative ? "-" : "") + std::to_string(a.mag) + (a.kind == Kind::Char ? "c" : a.kind == Kind::Bool ? "b" : a.kind == Kind::Int ? "" : "?");
    }
    return r;
}

// Formats and compares with the reference. Returns the reference's verdict.
template <typename C, typename P>
Parsed<C> check(pbt::Src &s, std::basic_string<C> const &text, P const &pack)
{
    auto parsed = Grammar<C>(text, pack.args).run();
    if (s.want_note())
        s.note(describe(text, pack.args));
    if (text.size() > 1024)
        throw pbt::Skip {};
    auto const r = pack.format(text, parsed.huge);
    if (parsed.verdict == Verdict::Open)
        return parsed;
    if (parsed.verdict == Verdict::Invalid)
    {
        PBT_CHECK(r.error, "malformed (%s) but accepted: %s gave %s", parsed.why, describe(text, pack.args).c_str(), pbt::show(r.out).c_str());
        auto const expected = ascii<C>("Ignored invalid formatter: " + r.message);
        PBT_CHECK(!r.message.empty() && r.out == expected && r.via_iterator == expected, "malformed (%s), reported %s, formatted as %s: %s", parsed.why, r.message.c_str(), pbt::show(r.out).c_str(), describe(text, pack.args).c_str());
        return parsed;
    }
    PBT_CHECK(!r.error, "well formed but rejected (%s): %s", r.message.c_str(), describe(text, pack.args).c_str());
    if (parsed.huge)
        return parsed;
    auto const expected = render<C>(parsed.items, pack.args);
    PBT_CHECK(r.out == expected, "%s gave %s, expected %s", describe(text, pack.args).c_str(), pbt::show(r.out, 1000).c_str(), pbt::show(expected, 1000).c_str());
    PBT_CHECK(r.via_iterator == expected, "%s: format_to gave %s, expected %s", describe(text, pack.args).c_str(), pbt::show(r.via_iterator, 1000).c_str(), pbt::show(expected, 1000).c_str());
    return parsed;
}

} // namespace fmtm

template <typename CharType>
struct fly::string::Formatter<fmtm::Opaque, CharType>
{
    template <typename FormatContext>
    void format(fmtm::Opaque const &v, FormatContext &context)
    {
        for (char c : "<" + std::to_string(v.value) + ">")
            *context.out()++ = static_cast<CharType>(c);
    }
};

template <typename CharType>
struct fly::string::Formatter<fmtm::Derived, CharType> : public fly::string::Formatter<int, CharType>
{
    template <typename FormatContext>
    void format(fmtm::Derived const &v, FormatContext &context)
    {
        fly::string::Formatter<int, CharType>::format(v.value, context);
    }
};

template <typename CharType>
struct fly::string::Formatter<fmtm::Custom, CharType>
{
    bool m_option {false};

    template <typename FormatParseContext>
    constexpr void parse(FormatParseContext &context)
    {
        m_option = context.lexer().consume_if(static_cast<CharType>('r'));
        if (!context.lexer().consume_if(static_cast<CharType>('}')))
            context.on_error("bad option");
    }

    template <typename FormatContext>
    void format(fmtm::Custom const &v, FormatContext &context)
    {
        for (char c : (m_option ? "r" : "n") + std::to_string(v.value))
            *context.out()++ = static_cast<CharType>(c);
    }
};
