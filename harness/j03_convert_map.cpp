#include "j03_convert.hpp"

namespace j03 {

void maps(pbt::Src &s)
{
    switch (s.below(11))
    {
        case 0: both<std::map<std::string, int>>(s, "map<string, int>"); break;
        case 1: both<std::map<std::string, fly::Json>>(s, "map<string, Json>"); break;
        case 2: both<std::map<std::wstring, std::string>>(s, "map<wstring, string>"); break;
        case 3: both<std::map<std::u16string, std::vector<int>>>(s, "map<u16string, vector<int>>"); break;
        case 4: both<std::multimap<std::string, double>>(s, "multimap<string, double>"); break;
        case 5: both<std::unordered_map<std::string, std::string>>(s, "unordered_map<string, string>"); break;
        case 6: both<std::unordered_multimap<std::u32string, bool>>(s, "unordered_multimap<u32string, bool>"); break;
        case 7: both<std::unordered_map<std::u8string, std::uint64_t>>(s, "unordered_map<u8string, uint64>"); break;
        case 8: both<std::map<std::string, std::map<std::string, std::string>>>(s, "map<string, map<string, string>>"); break;
        case 9: swap<std::map<std::u16string, int>>(s, "map<u16string, int>"); break;
        default: swap<std::unordered_map<std::string, std::string>>(s, "unordered_map<string, string>"); break;
    }
}

} // namespace j03
