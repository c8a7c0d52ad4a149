// S04: the lexer against a cursor over the text.
#include "str_common.hpp"

#include "fly/types/string/lexer.hpp"

namespace {

template <typename C>
void lexer(pbt::Src &s)
{
    std::basic_string<C> text;
    std::size_t const n = s.length(60);
    for (std::size_t i = 0; i < n; ++i)
    {
        switch (s.weighted({6, 3, 2, 1}))
        {
            case 0: text += static_cast<C>('0' + s.below(10)); break;
            case 1: text += static_cast<C>("abcdefABCDEFgG"[s.below(14)]); break;
            case 2: text += static_cast<C>(" .:,-+/@`x\0{}"[s.below(13)]); break;
            default: text += gen::unit<C>(s);
        }
    }
    if (s.chance(1, 6))
    {
        // around 2^64
        static char const *const big[] = {"18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551619", "18446744073709551620", "99999999999999999999", "184467440737095516150", "ffffffffffffffff", "10000000000000000", "FFFFFFFFFFFFFFFF0", "0000000000000000000000000001", "36893488147419103232"};
        std::string const b = big[s.below(sizeof(big) / sizeof(*big))];
        text.insert(s.below(text.size() + 1), std::basic_string<C>(b.begin(), b.end()));
    }
    std::string ops;
    gen::Exact<C> const exact(text);
    fly::BasicLexer<C> lex(exact.view());
    std::size_t pos = 0;
    std::size_t const size = text.size();

    auto number = [&](unsigned base, std::optional<std::uintmax_t> &value) {
        // expected result and end position
        unsigned __int128 v = 0;
        std::size_t i = pos;
        bool any = false, over = false;
        for (; i < size; ++i)
        {
            auto const c = ref::unit(text[i]);
            unsigned d = 99;
            if (c >= '0' && c <= '9')
                d = c - '0';
            else if (base == 16 && c >= 'a' && c <= 'f')
                d = c - 'a' + 10;
            else if (base == 16 && c >= 'A' && c <= 'F')
                d = c - 'A' + 10;
            if (d >= base)
                break;
            any = true;
            v = v * base + d;
            if (v > UINTMAX_MAX)
                over = true, v = UINTMAX_MAX;
        }
        if (pos >= size || !any || over)
        {
            value.reset();
            return pos;
        }
        value = static_cast<std::uintmax_t>(v);
        return i;
    };

    PBT_CHECK(lex.position() == 0 && lex.view() == exact.view(), "initial state");
    std::size_t const steps = 1 + s.below(30);
    bool numbers = false, moved = false;
    for (std::size_t k = 0; k < steps; ++k)
    {
        switch (s.weighted({3, 3, 4, 5, 4, 2}))
        {
            case 0:
            {
                std::size_t const off = s.chance(1, 2) ? 0 : (s.chance(4, 5) ? s.below(70) : s.interesting());
                ops += pbt::strf("peek(%zu) ", off);
                auto const got = lex.peek(off);
                bool const ok = pos < size && off < size - pos;
                PBT_CHECK(got.has_value() == ok, "%s at %zu: %d of %s", ops.c_str(), pos, got.has_value(), pbt::show(text).c_str());
                if (ok)
                    PBT_CHECK(*got == text[pos + off], "%s wrong character", ops.c_str());
                break;
            }
            case 1:
            {
                ops += "consume ";
                auto const got = lex.consume();
                PBT_CHECK(got.has_value() == (pos < size), "%s at %zu of %s", ops.c_str(), pos, pbt::show(text).c_str());
                if (got)
                    PBT_CHECK(*got == text[pos++], "%s wrong character", ops.c_str());
                break;
            }
            case 2:
            {
                C const c = (pos < size && s.chance(2, 3)) ? text[pos] : gen::unit<C>(s);
                ops += pbt::strf("consume_if(%x) ", ref::unit(c));
                bool const ok = pos < size && text[pos] == c;
                PBT_CHECK(lex.consume_if(c) == ok, "%s at %zu of %s", ops.c_str(), pos, pbt::show(text).c_str());
                pos += ok;
                break;
            }
            case 3:
            case 4:
            {
                bool const dec = s.flip();
                ops += dec ? "number " : "hex ";
                std::optional<std::uintmax_t> want;
                std::size_t const next = number(dec ? 10 : 16, want);
                auto const got = dec ? lex.consume_number() : lex.consume_hex_number();
                PBT_CHECK(got == want, "%s at %zu of %s: %s%ju, expected %s%ju", ops.c_str(), pos, pbt::show(text).c_str(), got ? "" : "none ", got.value_or(0), want ? "" : "none ", want.value_or(0));
                numbers |= want.has_value();
                pos = next;
                break;
            }
            default:
            {
                pos = s.chance(9, 10) ? s.below(size + 3) : s.interesting();
                ops += pbt::strf("set(%zu) ", pos);
                lex.set_position(pos);
                moved = true;
            }
        }
        PBT_CHECK(lex.position() == pos, "%s: position %zu, expected %zu in %s", ops.c_str(), lex.position(), pos, pbt::show(text).c_str());
        PBT_CHECK(lex.view() == exact.view(), "view changed");
    }
    s.note(pbt::show(text) + " " + ops);
    if (numbers)
        s.label("numbers"), s.nontrivial();
    if (moved)
        s.label("repositioned");
}

void literal(pbt::Src &s)
{
    // construction from arrays: a terminating null is not part of the text
    char a[4] = {static_cast<char>('0' + s.below(10)), 'x', static_cast<char>(s.below(3) ? 'y' : '\0'), '\0'};
    fly::BasicLexer<char> lex(a);
    PBT_CHECK(lex.view().size() == 3, "array size");
    char b[3] = {a[0], 'x', 'z'};
    fly::BasicLexer<char> lex2(b);
    PBT_CHECK(lex2.view().size() == 3 && lex2.consume() == a[0] && lex2.position() == 1, "unterminated array");
}

} // namespace

int main(int argc, char **argv)
{
    return pbt::main(argc, argv, {"S04",
        "Texts of 0-60 characters (digits, hex letters, separators, boundary code units, numbers around 2^64) for all five character types, each driven by 1-30 operations (peek at any offset, consume, conditional consume, decimal and hex number, reposition anywhere including far past the end) in an exactly sized heap block. Non-trivial: at least one number consumed. Oracle: cursor model in 128-bit arithmetic after every operation, AddressSanitizer.",
        {{"char", lexer<char>, 400000, 20000000}, {"wchar", lexer<wchar_t>, 100000, 5000000}, {"char8", lexer<char8_t>, 100000, 5000000}, {"char16", lexer<char16_t>, 150000, 6000000}, {"char32", lexer<char32_t>, 100000, 5000000}, {"arrays", literal, 100, 1000}},
        {}, {"repositioning past the end is allowed and makes every read fail, as documented"}});
}
