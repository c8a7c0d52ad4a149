#pragma once
// S05: formatting against a model of the documented rules.

#include "format_common.hpp"

namespace fmtm {

template <typename C>
void formatting(pbt::Src &s)
{
    fmtm::with_pack<C>(s, [&](auto const &pack) {
        auto const text = fmtm::format_text<C>(s, pack.args, 6);
        auto const parsed = fmtm::check<C>(s, text, pack);
        if (parsed.verdict == fmtm::Verdict::Open)
            throw pbt::Skip {};
        PBT_CHECK(parsed.verdict == fmtm::Verdict::Valid, "driver: generated an invalid format (%s): %s", parsed.why, pbt::show(text).c_str());
        for (auto const &i : parsed.items)
        {
            if (!i.field)
            {
                s.label("literal text");
                continue;
            }
            auto const &a = pack.args[i.field->arg];
            auto const &sp = i.field->spec;
            static char const *const kinds[] = {"character", "string", "pointer", "integer", "floating point", "boolean", "user-defined", "user-defined extending int", "user-defined with parser"};
            s.label(kinds[static_cast<int>(a.kind)]);
            if (sp.fill)
                s.label("fill");
            if (sp.width_arg || sp.precision_arg)
                s.label("nested width or precision");
            if (sp.zero)
                s.label("zero padding");
            if (sp.alt)
                s.label("alternate form");
            if (sp.width || sp.width_arg || sp.precision || sp.precision_arg || sp.sign || sp.alt || sp.type)
                s.nontrivial();
        }
    });
}

} // namespace fmtm
