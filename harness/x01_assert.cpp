// X01: assertions stop what must not go on, say exactly why, and are silent otherwise.
//
// Assertions of every documented form with generated conditions, messages and captured values, on a
// standard error stream in any format. Oracle: the handler runs and the report is made exactly when
// the condition is false, the condition is evaluated once, and the report is the documented text,
// with each captured value as the formatting functions give it. "abort": the same in processes that
// use FLY_ASSERT itself.
#include "terminal.hpp"

#include "fly/types/json/json.hpp"

#include "fly/assert/assert.hpp"

#include <sys/wait.h>

using namespace pbt;
using namespace term;

namespace {

// The backtrace is written to the descriptor.
struct Backtrace
{
    int old {dup(2)};
    int fd {memfd_create("backtrace", MFD_CLOEXEC)};
    Backtrace() { dup2(fd, 2); }
    ~Backtrace()
    {
        dup2(old, 2);
        ::close(old);
        ::close(fd);
    }
};

struct Outcome
{
    unsigned evaluated {0}, handled {0};
    std::string expression, function, message, file;
    std::uint32_t line {0};
    std::vector<std::pair<std::string, std::string>> captures;
    bool messaged {false};
};
thread_local Outcome *t_outcome = nullptr;

void handler()
{
    ++t_outcome->handled;
}

// What is captured.
struct Values
{
    int number;
    std::uint64_t large;
    double real;
    bool flag;
    char letter;
    std::string text;
    fly::Json json;
};

template <typename T>
std::string text_of(T const &v)
{
    return fly::string::format("{}", v);
}

bool condition(bool result)
{
    ++t_outcome->evaluated;
    return result;
}

#define ASSERT_HERE(o, ...)                                                                        \
    o.function = __FUNCTION__;                                                                     \
    o.line = __LINE__;                                                                             \
    o.file = __FILE__;                                                                             \
    FLY_ASSERT_IMPL(handler, __VA_ARGS__)

template <std::size_t N>
void with_message(Outcome &o, bool ok, std::string const &text, Values &v, std::uint64_t shape)
{
    static char storage[N];
    static constexpr char const (&message)[N] = storage; // as a literal is
    std::memcpy(storage, text.c_str(), N);
    static Values *values = nullptr;
    values = &v;
    static int number;
    static std::string words;
    static double real;
    number = v.number;
    words = v.text;
    real = v.real;
    o.messaged = true;
    o.message = text;
    switch (shape)
    {
        case 0:
            o.expression = "condition(ok)";
            ASSERT_HERE(o, condition(ok), message);
            break;
        case 1:
            o.expression = "condition(ok) && o.evaluated < 7";
            o.captures = {{"number", text_of(number)}};
            ASSERT_HERE(o, condition(ok) && o.evaluated < 7, message, number);
            break;
        default:
            o.expression = "condition(ok)";
            o.captures = {{"words", text_of(words)}, {"real", text_of(real)}, {"number", text_of(number)}};
            ASSERT_HERE(o, condition(ok), message, words, real, number);
            break;
    }
}

void without_message(Outcome &o, bool ok, Values &v, std::uint64_t shape)
{
    int number = v.number;
    std::uint64_t large = v.large;
    double real = v.real;
    bool flag = v.flag;
    char letter = v.letter;
    static std::string text;
    static fly::Json json;
    text = v.text;
    json = v.json;
    int const *condition_pointer = ok ? &number : nullptr;
    switch (shape)
    {
        case 0:
            o.expression = "condition(ok)";
            ASSERT_HERE(o, condition(ok));
            break;
        case 1:
            o.expression = "(condition(ok), condition_pointer)";
            o.captures = {{"number", text_of(number)}, {"large", text_of(large)}};
            ASSERT_HERE(o, (condition(ok), condition_pointer), number, large);
            break;
        case 2:
            o.expression = "condition(ok) ? true : false";
            o.captures = {{"real", text_of(real)}, {"flag", text_of(flag)}, {"letter", text_of(letter)}};
            ASSERT_HERE(o, condition(ok) ? true : false, real, flag, letter);
            break;
        case 3:
            o.expression = "condition(ok) == true";
            o.captures = {{"text", text_of(text)}, {"json", text_of(json)}};
            ASSERT_HERE(o, condition(ok) == true, text, json);
            break;
        default:
            o.expression = "condition(ok)";
            o.captures = {{"number", text_of(number)}, {"number", text_of(number)}, {"large", text_of(large)}, {"real", text_of(real)}, {"flag", text_of(flag)}, {"letter", text_of(letter)}, {"text", text_of(text)},
                {"json", text_of(json)}, {"large", text_of(large)}, {"letter", text_of(letter)}};
            ASSERT_HERE(o, condition(ok), number, number, large, real, flag, letter, text, json, large, letter);
            break;
    }
}

bool long_part(unsigned n)
{
    return n < 1000;
}

// Expressions which are long, have text that looks like a format, or are on several lines.
void with_long_expressions(Outcome &o, bool ok, Values &v, std::uint64_t shape)
{
    static int number, a_variable_with_a_name_that_is_really_not_short_in_any_way_because_reports_have_to_name_it_in_full;
    static std::string text;
    number = a_variable_with_a_name_that_is_really_not_short_in_any_way_because_reports_have_to_name_it_in_full = v.number;
    text = v.text;
    switch (shape)
    {
        case 0:
            o.expression = "condition(ok) && std::strlen(\"{} %d {0:x} }} {{\\n\") > 0";
            o.captures = {{"number", text_of(number)}, {"text", text_of(text)}};
            ASSERT_HERE(o, condition(ok) && std::strlen("{} %d {0:x} }} {{\n") > 0, number, text);
            break;
        case 1:
            o.expression = "condition(ok) && o.evaluated != 999999 && o.evaluated != 999998 && o.evaluated != 999997 && o.evaluated != 999996 && o.evaluated != 999995 && o.evaluated != 999994";
            ASSERT_HERE(o, condition(ok) && o.evaluated != 999999 && o.evaluated != 999998 && o.evaluated != 999997 && o.evaluated != 999996
                    && o.evaluated != 999995 && o.evaluated != 999994);
            break;
        case 2:
            o.expression = "condition(ok) && long_part(1) && long_part(2) && long_part(3) && long_part(4) && long_part(5) && long_part(6) && long_part(7) && long_part(8) && long_part(9) && long_part(10) && long_part(11) && long_part(12) && "
                           "long_part(13) && long_part(14) && long_part(15) && long_part(16) && long_part(17) && long_part(18) && long_part(19) && long_part(20) && long_part(21) && long_part(22)";
            o.captures = {{"a_variable_with_a_name_that_is_really_not_short_in_any_way_because_reports_have_to_name_it_in_full", text_of(v.number)}};
            ASSERT_HERE(o, condition(ok) && long_part(1) && long_part(2) && long_part(3) && long_part(4) && long_part(5) && long_part(6) && long_part(7) && long_part(8) && long_part(9) && long_part(10) && long_part(11) && long_part(12)
                    && long_part(13) && long_part(14) && long_part(15) && long_part(16) && long_part(17) && long_part(18) && long_part(19) && long_part(20) && long_part(21) && long_part(22),
                a_variable_with_a_name_that_is_really_not_short_in_any_way_because_reports_have_to_name_it_in_full);
            break;
        case 3:
        {
            struct Local
            {
                static void a_function_with_a_name_that_is_really_not_short_in_any_way_because_reports_have_to_name_it_in_full(Outcome &o, bool ok)
                {
                o.expression = "condition(ok)";
                o.captures = {{"text", text_of(text)}};
                ASSERT_HERE(o, condition(ok), text);
                }
            };
            Local::a_function_with_a_name_that_is_really_not_short_in_any_way_because_reports_have_to_name_it_in_full(o, ok);
            break;
        }
        default:
            o.expression = "condition(ok)";
#line 2000000001 "/a/folder/{0}/of a long name, which is longer than other names of folders are/{}/and %s/the/file.cpp"
            ASSERT_HERE(o, condition(ok));
#line 208 "x01_assert.cpp"
            break;
    }
}

std::string draw_text(Src &src, std::size_t n)
{
    std::string s;
    for (std::size_t i = 0; i < n; ++i)
        s += src.chance(1, 5) ? src.pick({'{', '}', '%', '\n', '\t', '"', '\x7f', '~'}) : static_cast<char>('a' + src.below(26));
    return s;
}

Values draw_values(Src &src)
{
    Values v;
    v.number = static_cast<int>(src.interesting());
    v.large = src.interesting();
    v.real = static_cast<double>(src.interesting()) / 8;
    v.flag = src.flip();
    v.letter = static_cast<char>(0x20 + src.below(0x5f));
    v.text = draw_text(src, src.length(300));
    v.json = src.flip() ? fly::Json(v.number) : fly::Json(fly::json_array_type {fly::Json(v.large), fly::Json(nullptr)});
    return v;
}

// The visible report, in pieces: the backtrace is written elsewhere.
std::string report(Outcome const &o)
{
    std::string s = "\nAssertion failed:";
    if (o.messaged && !o.message.empty())
        s += " " + o.message;
    s += "\n\tFLY_ASSERT(" + o.expression + ")\n\n\tat " + o.file + ":" + std::to_string(o.line) + "\n\tin " + o.function + "\n\n";
    if (!o.captures.empty())
    {
        s += "Captures:\n";
        for (auto const &[name, value] : o.captures)
            s += "\t" + name + " => " + value + "\n";
        s += "\n";
    }
    return s + "Call stack:\n\n";
}

void run_one(Src &src, Outcome &o, bool ok, std::string &history)
{
    Values v = draw_values(src);
    t_outcome = &o;
    std::size_t const size = src.below(4);
    std::uint64_t const shape = src.below(5);
    if (src.flip())
    {
        history += strf(" message %zu shape %llu", size, static_cast<unsigned long long>(shape % 3));
        switch (size)
        {
            case 0: with_message<1>(o, ok, "", v, shape % 3); break;
            case 1: with_message<2>(o, ok, draw_text(src, 1), v, shape % 3); break;
            case 2: with_message<17>(o, ok, draw_text(src, 16), v, shape % 3); break;
            default:
                if (src.flip())
                    with_message<201>(o, ok, draw_text(src, 200), v, shape % 3);
                else
                    with_message<5001>(o, ok, draw_text(src, 5000), v, shape % 3);
                break;
        }
    }
    else if (src.chance(1, 3))
    {
        history += strf(" long %llu", static_cast<unsigned long long>(shape));
        with_long_expressions(o, ok, v, shape);
    }
    else
    {
        history += strf(" shape %llu", static_cast<unsigned long long>(shape));
        without_message(o, ok, v, shape);
    }
}

void reports(Src &src)
{
    Captured captured;
    if (src.chance(1, 3))
        std::cerr << std::hex << std::showbase << std::setfill('#') << std::uppercase << std::left;
    std::size_t const n = 1 + src.below(4);
    std::size_t at = 0, failed = 0;
    std::string history;
    for (std::size_t i = 0; i < n; ++i)
    {
        Outcome o;
        bool const ok = src.chance(1, 4);
        failed += !ok;
        {
            Backtrace b;
            run_one(src, o, ok, history);
        }
        std::string const raw = captured.err.str().substr(at);
        at += raw.size();
        PBT_CHECK(o.evaluated == 1, "the condition was evaluated %u times: %s", o.evaluated, history.c_str());
        PBT_CHECK(o.handled == (ok ? 0 : 1), "the handler ran %u times for %s: %s", o.handled, ok ? "true" : "false", history.c_str());
        if (ok)
        {
            PBT_CHECK(raw.empty(), "%s is reported for what holds: %s", show(raw).c_str(), history.c_str());
            continue;
        }
        std::string text;
        Look last;
        for (auto const &c : terminal(raw, &last))
            text += c.what;
        std::string const want = report(o);
        PBT_CHECK(text == want, "%s is reported instead of %s: %s", show(text, 2000).c_str(), show(want, 2000).c_str(), history.c_str());
        PBT_CHECK(last == Look {}, "styles are left in force: %s", show(raw).c_str());
    }
    PBT_CHECK(captured.out.str().empty(), "written to standard output: %s", show(captured.out.str()).c_str());
    src.note(history);
    if (failed)
        src.nontrivial();
}

// FLY_ASSERT in a process of its own.
void aborts(Src &src)
{
    bool const ok = src.chance(1, 3);
    int const number = static_cast<int>(src.interesting());
    std::string const text = draw_text(src, src.length(40));
    bool const captures = src.flip();
    int const fd = memfd_create("report", MFD_CLOEXEC);
    pid_t const child = fork();
    if (child == 0)
    {
        struct rlimit none {0, 0};
        setrlimit(RLIMIT_CORE, &none);
        std::signal(SIGABRT, SIG_DFL);
        dup2(fd, 2);
        static std::string words;
        words = text;
        int value = number;
        if (captures)
            FLY_ASSERT(ok, "Told", value, words);
        else
            FLY_ASSERT(ok);
        std::cerr << "went on" << std::flush;
        _exit(17);
    }
    int status = 0;
    while (waitpid(child, &status, 0) < 0 && errno == EINTR) { }
    std::string raw(static_cast<std::size_t>(lseek(fd, 0, SEEK_END)), '\0');
    PBT_CHECK(pread(fd, raw.data(), raw.size(), 0) == static_cast<ssize_t>(raw.size()), "reading the report");
    ::close(fd);
    if (ok)
    {
        PBT_CHECK(WIFEXITED(status) && WEXITSTATUS(status) == 17 && raw == "went on", "an assertion which holds: status %x, %s", status, show(raw).c_str());
    }
    else
    {
        PBT_CHECK(WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT, "an assertion which fails does not abort: status %x, %s", status, show(raw).c_str());
        PBT_CHECK(raw.find("FLY_ASSERT(ok)") != std::string::npos && raw.find("x01_assert.cpp:") != std::string::npos, "%s does not report the assertion", show(raw).c_str());
        if (captures)
            PBT_CHECK(raw.find(strf("value => %d\n", number)) != std::string::npos && raw.find("words => " + text + "\n") != std::string::npos && raw.find(" Told") != std::string::npos, "%s does not report the values", show(raw).c_str());
    }
    src.note(strf("%s %d %s", ok ? "holds" : "fails", number, show(text).c_str()));
    if (!ok)
        src.nontrivial();
}

} // namespace

int main(int argc, char **argv)
{
    Options o;
    o.property = "X01";
    o.rule = "reports: 1-4 assertions with or without a message of 0, 1, 16, 200 or 5000 characters and 0-10 captured values (integers, floats, characters, strings, JSON), expressions, functions and files with short and long names, on standard error in any format; aborts: FLY_ASSERT in a child process. "
             "Non-trivial: at least one assertion fails. Oracle: the documented report through a terminal model, formatting of the values, exit status.";
    o.targets = {{"reports", reports, 150000, 3000000}, {"aborts", aborts, 4000, 60000}};
    return pbt::main(argc, argv, o);
}
