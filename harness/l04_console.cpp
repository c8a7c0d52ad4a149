// L04: styled and console output shows exactly what was written, in the styles that were asked for.
//
// "streams": histories of values, format flags and stylers (inline and held) on standard output,
// standard error, streams which share their buffers, and other streams. Oracle: a terminal that
// interprets the escape sequences; what it shows must be the text that the same history without
// stylers writes, each character in the styles and colors of the stylers in force, with the cursor
// movements in their places, and nothing but text on any other stream.
// "console": console loggers of all kinds. Oracle: one line per statement on the stream of its level,
// with the time, the position and the message in the documented styles.
#include "terminal.hpp"

#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/logger/styler.hpp"

#include <ctime>
#include <deque>
#include <iomanip>
#include <iostream>
#include <variant>

using namespace pbt;
using namespace term;
using fly::logger::Color;
using fly::logger::Cursor;
using fly::logger::Style;
using fly::logger::Styler;

namespace {

// ---- stylers -------------------------------------------------------------------------------------------

using Modifier = std::variant<Style, Color::StandardColor, Color, Cursor, Cursor::Direction>;

Modifier draw_modifier(Src &src)
{
    switch (src.below(5))
    {
        case 0: return static_cast<Style>(src.below(7));
        case 1: return static_cast<Color::StandardColor>(src.below(8));
        case 2: return Modifier(std::in_place_type<Color>, src.chance(1, 2) ? static_cast<std::uint8_t>(src.below(20)) : src.byte(), src.flip() ? Color::Background : Color::Foreground);
        case 3: return Modifier(std::in_place_type<Cursor>, static_cast<Cursor::Direction>(src.below(4)), src.chance(1, 2) ? static_cast<std::uint8_t>(src.below(12)) : src.byte());
        default: return static_cast<Cursor::Direction>(src.below(4));
    }
}

std::string show_modifier(Modifier const &m)
{
    if (auto const *s = std::get_if<Style>(&m))
        return strf("style %u", static_cast<unsigned>(*s));
    if (auto const *c = std::get_if<Color::StandardColor>(&m))
        return strf("color %u", static_cast<unsigned>(*c));
    if (auto const *c = std::get_if<Color>(&m))
        return strf("%s %u", c->m_plane == Color::Background ? "background" : "foreground", c->m_color);
    if (auto const *c = std::get_if<Cursor>(&m))
        return strf("cursor %u by %u", static_cast<unsigned>(c->m_direction), c->m_distance);
    return strf("cursor %u", static_cast<unsigned>(std::get<Cursor::Direction>(m)));
}

// A styler of up to three modifiers, given with their own types.
std::unique_ptr<Styler> make_mixed(std::vector<Modifier> &m)
{
    using P = std::unique_ptr<Styler>;
    auto &first = m[0];
    auto &second = m[m.size() > 1 ? 1 : 0];
    auto &third = m[m.size() > 2 ? 2 : 0];
    switch (m.size())
    {
        case 1: return std::visit([](auto &a) -> P { return std::make_unique<Styler>(a); }, first);
        case 2: return std::visit([](auto &a, auto &b) -> P { return std::make_unique<Styler>(a, b); }, first, second);
        default: return std::visit([](auto &a, auto &b, auto &c) -> P { return std::make_unique<Styler>(a, b, c); }, first, second, third);
    }
}

// Up to six styles.
template <typename F>
auto with_styles(std::vector<Style> const &s, F f)
{
    switch (s.size())
    {
        case 1: return f(Style(s[0]));
        case 2: return f(Style(s[0]), Style(s[1]));
        case 3: return f(Style(s[0]), Style(s[1]), Style(s[2]));
        case 4: return f(Style(s[0]), Style(s[1]), Style(s[2]), Style(s[3]));
        case 5: return f(Style(s[0]), Style(s[1]), Style(s[2]), Style(s[3]), Style(s[4]));
        default: return f(Style(s[0]), Style(s[1]), Style(s[2]), Style(s[3]), Style(s[4]), Color(Color::Cyan, Color::Background));
    }
}

// What a styler does to a terminal.
bool apply(std::vector<Modifier> const &modifiers, Look &look, std::vector<Cell> &cells)
{
    static int const s_codes[] = {0, 5, 1, 2, 3, 9, 4}; // Default, Blink, Bold, Dim, Italic, Strike, Underline
    bool visible = false;
    for (auto const &m : modifiers)
    {
        if (auto const *s = std::get_if<Style>(&m))
        {
            visible = true;
            if (*s == Style::Default)
                look = Look {};
            else
                look.styles.insert(s_codes[static_cast<std::size_t>(*s)]);
        }
    }
    for (auto const &m : modifiers)
    {
        if (auto const *c = std::get_if<Color::StandardColor>(&m))
            look.foreground = static_cast<int>(*c), visible = true;
        else if (auto const *d = std::get_if<Color>(&m))
            (d->m_plane == Color::Background ? look.background : look.foreground) = d->m_color, visible = true;
        else if (auto const *e = std::get_if<Cursor>(&m))
            cells.push_back({static_cast<char>('A' + e->m_direction), e->m_distance});
        else if (auto const *g = std::get_if<Cursor::Direction>(&m))
            cells.push_back({static_cast<char>('A' + *g), 1});
    }
    return visible;
}

// ---- histories -----------------------------------------------------------------------------------------

struct Held
{
    std::unique_ptr<Styler> styler;
    Look before;
    bool visible;
};

std::string draw_text(Src &src)
{
    std::string s;
    std::size_t const n = src.below(9);
    for (std::size_t i = 0; i < n; ++i)
        s += src.chance(1, 6) ? src.pick({'\n', '[', 'm', ';', '\x7f', '\xe9'}) : static_cast<char>('a' + src.below(26));
    return s;
}

void streams(Src &src)
{
    Captured captured;
    std::ostringstream other;
    std::ostream shares(src.flip() ? captured.out.rdbuf() : captured.err.rdbuf());
    std::size_t const which = src.weighted({4, 3, 1, 1});
    std::ostream &stream = which == 0 ? std::cout : which == 1 ? std::cerr : which == 2 ? shares : static_cast<std::ostream &>(other);
    std::ostringstream plain; // the same without stylers
    plain.copyfmt(stream);
    plain.exceptions(std::ios::goodbit);
    std::vector<Cell> want;
    std::deque<Held> held;
    Look look;
    bool any_look = false;
    std::string history = which == 0 ? "cout" : which == 1 ? "cerr" : which == 2 ? "a stream with a standard buffer" : "another stream";
    unsigned stylers = 0, flags = 0, values = 0;

    auto written = [&](std::size_t from) {
        std::string const text = plain.str().substr(from);
        for (char c : text)
            want.push_back({c, 0, look, any_look});
    };
    auto value = [&](std::ostream &o, std::uint64_t kind, std::uint64_t number, std::string const &text) {
        switch (kind)
        {
            case 0: o << text; break;
            case 1: o << static_cast<long>(number); break;
            case 2: o << static_cast<double>(number) / 7; break;
            case 3: o << static_cast<char>('a' + number % 26); break;
            case 4: o << (number % 2 == 0); break;
            default: o << text.c_str(); break;
        }
    };
    auto draw_modifiers = [&]() {
        std::vector<Modifier> m;
        if (src.chance(1, 5))
        {
            std::size_t const n = 1 + src.below(6);
            for (std::size_t i = 0; i < std::min<std::size_t>(n, 5); ++i)
                m.push_back(static_cast<Style>(src.below(7)));
            if (n == 6)
                m.emplace_back(std::in_place_type<Color>, static_cast<std::uint8_t>(Color::Cyan), Color::Background);
        }
        else
        {
            std::size_t const n = 1 + src.below(3);
            for (std::size_t i = 0; i < n; ++i)
                m.push_back(draw_modifier(src));
        }
        history += " styler(";
        for (auto const &x : m)
            history += show_modifier(x) + ", ";
        history += ")";
        ++stylers;
        return m;
    };
    auto make = [&](std::vector<Modifier> &m) {
        if (m.size() <= 3)
            return make_mixed(m);
        std::vector<Style> s;
        for (auto const &x : m)
            s.push_back(std::holds_alternative<Style>(x) ? std::get<Style>(x) : Style::Default);
        return with_styles(s, [](auto &&...x) { return std::make_unique<Styler>(std::move(x)...); });
    };
    // one more styler is in force
    auto begin = [&](std::vector<Modifier> const &m) {
        if (which == 3)
            return false;
        return apply(m, look, want);
    };
    // and no more: everything is reset, or what was before it is in force again
    auto end = [&](Look const &before, bool visible) {
        if (!visible)
            return;
        if (before == Look {} && !any_look)
            look = Look {};
        else
            any_look = !held.empty();
        if (held.empty())
        {
            look = Look {};
            any_look = false;
        }
    };

    std::size_t const steps = 1 + src.length(20);
    for (std::size_t i = 0; i < steps; ++i)
    {
        switch (src.weighted({6, 3, 3, 3, 2}))
        {
            case 0:
            {
                auto const kind = src.below(6);
                auto const number = src.interesting();
                auto const text = draw_text(src);
                history += strf(" value %llu %llu %s", static_cast<unsigned long long>(kind), static_cast<unsigned long long>(number), show(text).c_str());
                std::size_t const from = plain.str().size();
                value(stream, kind, number, text);
                value(plain, kind, number, text);
                written(from);
                ++values;
                break;
            }
            case 1: // an inline styler
            {
                auto m = draw_modifiers();
                auto const kind = src.below(6);
                auto const number = src.interesting();
                auto const text = draw_text(src);
                history += strf(" inline with value %llu %llu %s", static_cast<unsigned long long>(kind), static_cast<unsigned long long>(number), show(text).c_str());
                Look const before = look;
                bool const visible = begin(m);
                std::size_t const from = plain.str().size();
                {
                    auto styler = make(m);
                    switch (kind)
                    {
                        case 1: stream << *styler << static_cast<long>(number); break;
                        case 2: stream << *styler << static_cast<double>(number) / 7; break;
                        case 3: stream << *styler << static_cast<char>('a' + number % 26); break;
                        case 4: stream << *styler << (number % 2 == 0); break;
                        default: stream << *styler << text; break;
                    }
                }
                value(plain, kind, number, text);
                written(from);
                end(before, visible);
                ++values;
                break;
            }
            case 2: // one that is held
            {
                if (held.size() >= 3)
                    break;
                auto m = draw_modifiers();
                history += " held";
                Held h {make(m), look, false};
                h.visible = begin(m);
                stream << *h.styler << "";
                std::size_t const from = plain.str().size();
                plain << "";
                written(from);
                held.push_back(std::move(h));
                break;
            }
            case 3: // the last one that is held goes away
            {
                if (held.empty())
                    break;
                history += " dropped";
                Held h = std::move(held.back());
                held.pop_back();
                h.styler.reset();
                end(h.before, h.visible);
                break;
            }
            default:
            {
                auto const n = src.below(12);
                auto const size = src.below(12);
                auto set = [&](std::ostream &o) {
                    switch (n)
                    {
                        case 0: o << std::hex; break;
                        case 1: o << std::oct; break;
                        case 2: o << std::dec; break;
                        case 3: o << std::showbase; break;
                        case 4: o << std::showpos; break;
                        case 5: o << std::setfill(static_cast<char>('0' + size)); break;
                        case 6: o << std::setw(static_cast<int>(size)); break;
                        case 7: o << std::left; break;
                        case 8: o << std::right; break;
                        case 9: o << std::uppercase; break;
                        case 10: o << std::boolalpha; break;
                        default: o << std::setprecision(static_cast<int>(size)) << std::scientific; break;
                    }
                };
                history += strf(" flag %llu %llu", static_cast<unsigned long long>(n), static_cast<unsigned long long>(size));
                set(stream);
                set(plain);
                ++flags;
                break;
            }
        }
        PBT_CHECK(stream.good(), "the stream failed: %s", history.c_str());
        PBT_CHECK(stream.flags() == plain.flags() && stream.fill() == plain.fill() && stream.precision() == plain.precision() && stream.width() == plain.width(),
            "the stream's format (width %lld) is not what was set (%lld): %s", static_cast<long long>(stream.width()), static_cast<long long>(plain.width()), history.c_str());
    }
    while (!held.empty())
    {
        held.back().styler.reset();
        held.pop_back();
    }
    stream << std::flush;
    std::string const raw = which == 3 ? other.str() : captured.out.str() + captured.err.str();
    Look last;
    compare(terminal(raw, &last), want, raw, history);
    PBT_CHECK(last == Look {}, "styles are left in force after %s: %s", show(raw).c_str(), history.c_str());
    if (which == 3)
    {
        PBT_CHECK(raw.find('\x1b') == std::string::npos, "an escape sequence on a stream which is not a standard one: %s", show(raw).c_str());
        PBT_CHECK(captured.out.str().empty() && captured.err.str().empty(), "another stream was written to: %s", history.c_str());
    }
    src.note(history + " -> " + show(raw));
    if (flags)
        src.label("format flags");
    if (stylers && values)
        src.nontrivial();
}

// ---- the console sink ------------------------------------------------------------------------------------

struct Config : fly::logger::LoggerConfig
{
    explicit Config(std::uint32_t size) { m_default_max_message_size = size; }
};

void console(Src &src)
{
    using fly::logger::Level;
    Captured captured;
    auto const limit = static_cast<std::uint32_t>(src.chance(1, 3) ? 1 + src.below(20) : 256);
    bool const by_default = src.chance(1, 4);
    auto logger = by_default ? nullptr : fly::logger::create_console_logger("console", std::make_shared<Config>(limit));
    fly::logger::Logger *l = by_default ? fly::logger::Logger::get_default_logger() : logger.get();
    PBT_CHECK(l != nullptr, "no console logger");
    if (src.chance(1, 3))
        (src.flip() ? std::cout : std::cerr) << std::hex << std::showbase << std::setfill('#') << std::uppercase;
    std::size_t const n = 1 + src.below(5);
    std::string history;
    std::size_t out_at = 0, err_at = 0;
    for (std::size_t i = 0; i < n; ++i)
    {
        auto const level = static_cast<Level>(src.below(4));
        std::string message;
        std::size_t const size = src.chance(1, 3) ? src.below(limit + 3) : src.below(30);
        for (std::size_t k = 0; k < size; ++k)
            message += src.chance(1, 5) ? static_cast<char>(src.below(256)) : static_cast<char>('a' + src.below(26));
        bool const traced = src.chance(2, 3);
        auto const line = static_cast<std::uint32_t>(src.interesting());
        static std::string const s_files[] = {"file.cpp", "/a/b c.hpp", "x{}"};
        static std::string const s_functions[] = {"f", "operator()", "a::b"};
        std::string const &file = s_files[src.below(3)];
        std::string const &function = s_functions[src.below(3)];
        history += strf(" level %u %s", static_cast<unsigned>(level), show(message).c_str());
        auto const from = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
        if (traced)
        {
            fly::logger::Trace trace {file, function, line};
            switch (level)
            {
                case Level::Debug: l->debug(std::move(trace), "{}", message); break;
                case Level::Info: l->info(std::move(trace), "{}", message); break;
                case Level::Warn: l->warn(std::move(trace), "{}", message); break;
                default: l->error(std::move(trace), "{}", message); break;
            }
        }
        else
        {
            switch (level)
            {
                case Level::Debug: l->debug("{}", message); break;
                case Level::Info: l->info("{}", message); break;
                case Level::Warn: l->warn("{}", message); break;
                default: l->error("{}", message); break;
            }
        }
        auto const to = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
        bool const to_error = level == Level::Warn || level == Level::Error;
        std::string const out = captured.out.str().substr(out_at), err = captured.err.str().substr(err_at);
        out_at += out.size();
        err_at += err.size();
        std::string const &raw = to_error ? err : out;
        PBT_CHECK((to_error ? out : err).empty(), "written to the other stream: %s", history.c_str());
        std::string expected = message;
        std::uint32_t const most = by_default ? 256 : limit;
        if (expected.size() > most)
            expected.resize(most);
        std::string const tail = ": " + expected + "\n";
        PBT_CHECK(raw.size() >= tail.size() && raw.compare(raw.size() - tail.size(), tail.size(), tail) == 0, "%s does not end in the message %s: %s", show(raw).c_str(), show(tail).c_str(), history.c_str());
        Look last;
        auto const head = terminal(raw.substr(0, raw.size() - tail.size()), &last);
        PBT_CHECK(last == Look {}, "the message is styled in %s", show(raw).c_str());
        Look look;
        if (level == Level::Info)
            look.foreground = Color::Green;
        else if (level == Level::Warn)
            look.foreground = Color::Yellow;
        else if (level == Level::Error)
        {
            look.foreground = Color::Red;
            look.styles.insert(1);
        }
        std::string text;
        for (auto const &c : head)
        {
            PBT_CHECK(c.distance == 0 && c.look == look, "%s shows %s: %s", show(raw).c_str(), show_cells(head).c_str(), history.c_str());
            text += c.what;
        }
        bool found = false;
        for (auto t = from; t <= to && !found; ++t)
        {
            struct tm tm;
            localtime_r(&t, &tm);
            std::string const when = strf("%02d-%02d-%04d %02d:%02d:%02d ", tm.tm_mon + 1, tm.tm_mday, tm.tm_year + 1900, tm.tm_hour, tm.tm_min, tm.tm_sec);
            found = text == when + (traced ? file + ":" + function + ":" + std::to_string(line) : std::string());
        }
        PBT_CHECK(found, "%s does not show the time and position: %s", show(raw).c_str(), history.c_str());
    }
    src.note(history);
    if (n >= 2)
        src.nontrivial();
}

} // namespace

int main(int argc, char **argv)
{
    Options o;
    o.property = "L04";
    o.rule = "streams: histories of up to 21 values, format flags and inline or held stylers of 1-6 modifiers on cout, cerr, a stream with their buffers, or another stream; non-trivial with a styler and a value. "
             "console: 1-5 statements of all levels with any bytes; non-trivial with two or more. Oracle: a terminal model against the same history without stylers.";
    o.targets = {{"streams", streams, 400000, 8000000}, {"console", console, 100000, 2000000}};
    return pbt::main(argc, argv, o);
}
