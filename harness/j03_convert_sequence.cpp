#include "j03_convert.hpp"

namespace j03 {

void sequences(pbt::Src &s)
{
    switch (s.below(14))
    {
        case 0: both<std::vector<int>>(s, "vector<int>"); break;
        case 1: both<std::vector<std::string>>(s, "vector<string>"); break;
        case 2: both<std::vector<fly::Json>>(s, "vector<Json>"); break;
        case 3: both<std::vector<std::vector<double>>>(s, "vector<vector<double>>"); break;
        case 4: both<std::deque<std::u16string>>(s, "deque<u16string>"); break;
        case 5: both<std::list<std::int64_t>>(s, "list<int64>"); break;
        case 6: both<std::forward_list<std::uint16_t>>(s, "forward_list<uint16>"); break;
        case 7: both<std::array<int, 3>>(s, "array<int, 3>"); break;
        case 8: both<std::array<std::string, 2>>(s, "array<string, 2>"); break;
        case 9: both<std::array<std::uint8_t, 0>>(s, "array<uint8, 0>"); break;
        case 10: both<std::vector<std::map<std::string, int>>>(s, "vector<map<string, int>>"); break;
        case 11: swap<std::vector<int>>(s, "vector<int>"); break;
        case 12: swap<std::list<std::string>>(s, "list<string>"); break;
        default: swap<std::deque<fly::Json>>(s, "deque<Json>"); break;
    }
}

} // namespace j03
