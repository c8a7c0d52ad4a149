#include "j03_convert.hpp"

namespace j03 {

void sets(pbt::Src &s)
{
    switch (s.below(8))
    {
        case 0: both<std::set<int>>(s, "set<int>"); break;
        case 1: both<std::set<std::string>>(s, "set<string>"); break;
        case 2: both<std::multiset<unsigned>>(s, "multiset<unsigned>"); break;
        case 3: both<std::multiset<double>>(s, "multiset<double>"); break;
        case 4: both<std::unordered_set<long>>(s, "unordered_set<long>"); break;
        case 5: both<std::unordered_multiset<std::string>>(s, "unordered_multiset<string>"); break;
        case 6: both<std::set<std::vector<int>>>(s, "set<vector<int>>"); break;
        default: swap<std::set<int>>(s, "set<int>"); break;
    }
}

} // namespace j03
