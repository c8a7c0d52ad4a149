#include "j03_convert.hpp"
#include "quiet.hpp"

int main(int argc, char **argv)
{
    quiet_logger();
    return pbt::main(argc, argv, {"J03",
        "Values of every supported kind of C++ type (booleans, integers of all widths, the floating point types, strings, character arrays and C strings of the five character types with and without JSON escapes, valid and not, every sequence, set and map container with scalar, string, JSON and nested elements) are turned into JSON values, compared with the model and converted back; JSON values of matching and of arbitrary shape are converted to the same types; swaps with these types must exchange or change nothing; and objects are accessed with keys of all string types. Non-trivial: a conversion took place and was compared.",
        {{"numbers", j03::numbers, 150000, 5000000}, {"strings", j03::strings, 100000, 4000000}, {"sequences", j03::sequences, 60000, 2000000}, {"sets", j03::sets, 60000, 2000000}, {"maps", j03::maps, 60000, 2000000}, {"keys", j03::keys, 60000, 2000000}},
        {}, {"converting a number to a type that cannot represent it is left open, as with static_cast; fractions are dropped when converting to an integer", "numeric text follows fly::String::convert (property S07)", "of equal keys of a multimap the first wins"}});
}
