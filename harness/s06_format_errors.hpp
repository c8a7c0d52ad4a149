#pragma once
// S06: the set of accepted format strings against the documented grammar.

#include "format_common.hpp"

namespace fmtm {

template <typename C>
std::basic_string<C> piece(pbt::Src &s)
{
    static char const alphabet[] = "{}{}{}:::<>^+- #00123456789..LcspbBodxXaAeEfFgGr~\"";
    if (s.chance(1, 30))
        return std::basic_string<C>(1, gen::unit<C>(s));
    if (s.chance(1, 20))
        return fmtm::ascii<C>(s.pick({"{}", "{0}", "{1}", "{:{}}", "{:.{}}", "{0:{1}}", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "18446744073709551626", "{{", "}}", "{:", "{18446744073709551616}"}));
    return std::basic_string<C>(1, static_cast<C>(alphabet[s.below(sizeof(alphabet) - 1)]));
}

template <typename C>
void errors(pbt::Src &s)
{
    fmtm::with_pack<C>(s, [&](auto const &pack) {
        std::basic_string<C> text;
        switch (s.weighted({5, 2, 1}))
        {
            case 0: // a valid one, edited
            {
                text = fmtm::format_text<C>(s, pack.args, 3);
                std::size_t const n = 1 + s.below(3);
                for (std::size_t k = 0; k < n; ++k)
                {
                    std::size_t const at = s.below(text.size() + 1);
                    switch (s.below(5))
                    {
                        case 0: text.insert(at, piece<C>(s)); break;
                        case 1:
                            if (at < text.size())
                                text.erase(at, 1);
                            break;
                        case 2:
                            if (at < text.size())
                                text.replace(at, 1, piece<C>(s));
                            break;
                        case 3: text.resize(at); break;
                        default:
                            if (at < text.size())
                                text.insert(at, 1, text[at]);
                    }
                }
                break;
            }
            case 1: // one field of random pieces
            {
                text = fmtm::ascii<C>(s.flip() ? "{:" : "{");
                std::size_t const n = s.below(7);
                for (std::size_t k = 0; k < n; ++k)
                    text += piece<C>(s);
                text += fmtm::ascii<C>("}");
                break;
            }
            default:
            {
                if (s.chance(1, 4) && !pack.args.empty())
                {
                    // around the limit on the number of fields
                    std::size_t const n = 62 + s.below(5);
                    for (std::size_t k = 0; k < n; ++k)
                        text += fmtm::ascii<C>("{0}");
                    break;
                }
                std::size_t const n = s.length(30);
                for (std::size_t k = 0; k < n; ++k)
                    text += piece<C>(s);
            }
        }
        if (text.size() > 1024)
            throw pbt::Skip {};
        auto const parsed = fmtm::check<C>(s, text, pack);
        switch (parsed.verdict)
        {
            case fmtm::Verdict::Valid: s.label("well formed"); break;
            case fmtm::Verdict::Invalid: s.label(std::string("malformed: ") + parsed.why); break;
            default: s.label("left open"); break;
        }
        if (parsed.verdict == fmtm::Verdict::Invalid || parsed.fields > 0)
            s.nontrivial();
    });
}

} // namespace fmtm
