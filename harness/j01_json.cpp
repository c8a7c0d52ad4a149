#include "j01_json.hpp"
#include "quiet.hpp"

namespace {

using namespace j01;

void history(pbt::Src &s)
{
    World w;
    for (std::size_t r = 0; r < roots; ++r)
    {
        MV m = gen::value(s, 2, 4);
        if (s.chance(1, 3))
            {
            bool const array = s.flip();
            m = array ? MV::arr() : MV::obj();
            for (std::size_t k = s.below(7); k > 0; --k)
            {
                if (array)
                    m.a.push_back(gen::value(s, 1, 3));
                else
                    m.o[gen::key(s)] = gen::value(s, 1, 3);
            }
        }
        w.model[r] = m;
        w.json[r] = ref::make(m);
    }
    check(w, "construction");
    std::size_t const n = 1 + s.length(40);
    std::size_t big = 0;
    for (std::size_t k = 0; k < n; ++k)
    {
        char const *what;
        switch (s.weighted({5, 5, 5, 5, 4, 2}))
        {
            case 0: what = op_value(w, s); break;
            case 1: what = op_access(w, s); break;
            case 2: what = op_object(w, s); break;
            case 3: what = op_array(w, s); break;
            case 4: what = op_erase(w, s); break;
            default: what = op_iterate(w, s); break;
        }
        if (s.want_note())
            s.note(what);
        s.label(what);
        check(w, what);
        for (std::size_t r = 0; r < roots; ++r)
        {
            if (ref::show(w.model[r]).size() > 3000)
            {
                // keep histories affordable
                w.model[r] = MV::arr();
                w.json[r] = ref::make(w.model[r]);
            }
            big = std::max(big, w.model[r].size());
        }
    }
    if (big >= 3 && n >= 3)
        s.nontrivial();
}

} // namespace

int main(int argc, char **argv)
{
    quiet_logger();
    return pbt::main(argc, argv, {"J01",
        "Histories of 1 to 41 operations over three JSON values of random type and nesting, each operation applied to a random node of a value: copy and move assignment and construction (from other nodes, own descendants, itself), swap with values, strings, vectors and maps, conversions from rvalues, clear, resize, reserve, element access by key and index, insertion by key and position (one, many, ranges, lists), emplacement, appending, merging values and maps, erasure by key, index, position and range, lookups, and iterators in both directions with offsets. All three values are compared with their models after every operation, and every inapplicable operation must throw and change nothing. Non-trivial: at least 3 operations and a value of size 3. Oracle: std::vector, std::map and std::string of model values.",
        {{"history", history, 60000, 2000000}},
        {}, {"a value passed as an rvalue counts as consumed even when the operation throws", "ranges given to erase() are not reversed, and a value is not swapped with or moved into its own descendant, as with the standard containers"}});
}
