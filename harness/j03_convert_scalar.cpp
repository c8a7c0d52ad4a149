#include "j03_convert.hpp"

namespace j03 {

void numbers(pbt::Src &s)
{
    switch (s.below(14))
    {
        case 0: both<bool>(s, "bool"); break;
        case 1: both<signed char>(s, "signed char"); break;
        case 2: both<unsigned char>(s, "unsigned char"); break;
        case 3: both<short>(s, "short"); break;
        case 4: both<unsigned short>(s, "unsigned short"); break;
        case 5: both<int>(s, "int"); break;
        case 6: both<unsigned int>(s, "unsigned int"); break;
        case 7: both<long>(s, "long"); break;
        case 8: both<unsigned long>(s, "unsigned long"); break;
        case 9: s.flip() ? both<long long>(s, "long long") : both<unsigned long long>(s, "unsigned long long"); break;
        case 10: both<float>(s, "float"); break;
        case 11: both<double>(s, "double"); break;
        case 12: both<long double>(s, "long double"); break;
        default:
        {
            MV const m = candidate<int>(s);
            to<std::nullptr_t>(s, ref::make(m), m, "null");
            fly::Json const j = nullptr;
            PBT_CHECK(ref::diff(j, MV()).empty(), "null");
        }
    }
}

void keys(pbt::Src &s)
{
    MV m = MV::obj();
    for (std::size_t k = s.below(6); k > 0; --k)
        m.o[gen::key(s)] = gen::scalar(s);
    fly::Json j = ref::make(m);
    fly::Json const &cj = j;
    auto run = [&]<typename C>(C) {
        std::basic_string<C> key = text<C>(s, !s.chance(1, 6));
        if (!m.o.empty() && s.flip())
        {
            std::string b = gen::json_string(s, std::next(m.o.begin(), static_cast<std::ptrdiff_t>(s.below(m.o.size())))->first);
            key = ref::encode_all<C>(*ref::decode_all<char>(b.substr(1, b.size() - 2)));
        }
        bool const terminated = s.flip();
        if (terminated)
            key = key.substr(0, key.find(C(0)));
        auto const name = json_text_of(key);
        bool const has = name && m.o.contains(*name);
        if (s.want_note())
            s.note(pbt::show(key) + pbt::strf(" in %s", ref::show(m).c_str()));
        auto each = [&](auto const &k) {
            auto attempt = [&](char const *what, bool fails, auto &&f) {
                bool thrown = false;
                try
                {
                    f();
                }
                catch (fly::JsonException const &)
                {
                    thrown = true;
                }
                PBT_CHECK(thrown == fails, "%s with key %s of %zu-byte characters %s", what, pbt::show(key).c_str(), sizeof(C), thrown ? "threw" : "did not throw");
            };
            attempt("contains", !name, [&] { PBT_CHECK(cj.contains(k) == has, "contains %s", pbt::show(key).c_str()); });
            attempt("count", !name, [&] { PBT_CHECK(cj.count(k) == (has ? 1 : 0), "count %s", pbt::show(key).c_str()); });
            attempt("find", !name, [&] { PBT_CHECK((cj.find(k) != cj.end()) == has, "find %s", pbt::show(key).c_str()); });
            attempt("at", !has, [&] {
                fly::Json const &e = cj.at(k);
                PBT_CHECK(ref::diff(e, m.o.at(*name)).empty(), "at %s", pbt::show(key).c_str());
            });
            attempt("erase", !name, [&] { PBT_CHECK(j.erase(k) == (has ? 1 : 0), "erase %s", pbt::show(key).c_str()); });
            if (has)
                m.o.erase(*name);
            switch (s.below(4))
            {
                case 0: attempt("operator[]", !name, [&] { j[k] = 7; }); break;
                case 1: attempt("insert", !name, [&] { j.insert(k, fly::Json(7)); }); break;
                case 2: attempt("insert_or_assign", !name, [&] { j.insert_or_assign(k, fly::Json(7)); }); break;
                default: attempt("emplace", !name, [&] { j.emplace(k, 7); }); break;
            }
            if (name)
                m.o[*name] = MV::integer(7);
            auto const d = ref::diff(j, m);
            PBT_CHECK(d.empty(), "with key %s: %s", pbt::show(key).c_str(), d.c_str());
        };
        if (terminated)
            each(static_cast<C const *>(key.c_str()));
        else
            each(key);
    };
    switch (s.below(5))
    {
        case 0: run(char()); break;
        case 1: run(wchar_t()); break;
        case 2: run(char8_t()); break;
        case 3: run(char16_t()); break;
        default: run(char32_t()); break;
    }
    s.nontrivial();
}

} // namespace j03
