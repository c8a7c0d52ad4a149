// A model of a terminal, and standard streams with buffers of ours.
#pragma once

#include "pbt.hpp"

#include <iomanip>
#include <iostream>

namespace term {

using namespace pbt;

// ---- a terminal ------------------------------------------------------------------------------------

struct Look
{
    std::set<int> styles;
    int foreground {-1}, background {-1};
    bool operator==(Look const &) const = default;
};

inline std::string show_look(Look const &l)
{
    std::string s = "{";
    for (int i : l.styles)
        s += std::to_string(i) + " ";
    return s + "fg " + std::to_string(l.foreground) + " bg " + std::to_string(l.background) + "}";
}

struct Cell
{
    char what {0}; // a character, or with a distance, the direction of a movement
    unsigned distance {0};
    Look look {};
    bool any_look {false}; // of an expectation
};

inline std::string show_cells(std::vector<Cell> const &cells)
{
    std::string s;
    Look const *last = nullptr;
    for (auto const &c : cells)
    {
        if (c.distance)
        {
            s += strf("<%u%c>", c.distance, c.what);
            continue;
        }
        if (!c.any_look && (last == nullptr || !(*last == c.look)))
            s += show_look(c.look);
        last = &c.look;
        s += (c.what >= 0x20 && c.what < 0x7f) ? std::string(1, c.what) : strf("\\x%02x", static_cast<unsigned char>(c.what));
    }
    return s;
}

inline void select_graphics(Look &look, std::vector<unsigned> const &p, std::string const &raw)
{
    for (std::size_t i = 0; i < p.size(); ++i)
    {
        if (p[i] == 0)
            look = Look {};
        else if (p[i] <= 5 || p[i] == 9)
            look.styles.insert(static_cast<int>(p[i]));
        else if (p[i] >= 30 && p[i] <= 37)
            look.foreground = static_cast<int>(p[i] - 30);
        else if (p[i] >= 40 && p[i] <= 47)
            look.background = static_cast<int>(p[i] - 40);
        else if ((p[i] == 38 || p[i] == 48) && i + 2 < p.size() && p[i + 1] == 5 && p[i + 2] <= 255)
        {
            (p[i] == 38 ? look.foreground : look.background) = static_cast<int>(p[i + 2]);
            i += 2;
        }
        else
            fail(strf("%u is no style in %s", p[i], show(raw).c_str()));
    }
}

// Interprets what was written.
inline std::vector<Cell> terminal(std::string const &raw, Look *at_end = nullptr)
{
    std::vector<Cell> cells;
    Look look;
    for (std::size_t i = 0; i < raw.size(); ++i)
    {
        if (raw[i] != '\x1b')
        {
            cells.push_back({raw[i], 0, look});
            continue;
        }
        PBT_CHECK(i + 1 < raw.size() && raw[i + 1] == '[', "an escape without a sequence in %s", show(raw).c_str());
        i += 2;
        std::vector<unsigned> p;
        std::string number;
        for (; i < raw.size() && ((raw[i] >= '0' && raw[i] <= '9') || raw[i] == ';'); ++i)
        {
            if (raw[i] == ';')
            {
                p.push_back(number.empty() ? 0u : static_cast<unsigned>(std::stoul(number)));
                number.clear();
            }
            else
                number += raw[i];
            PBT_CHECK(number.size() <= 3, "a number out of range in %s", show(raw).c_str());
        }
        p.push_back(number.empty() ? 0u : static_cast<unsigned>(std::stoul(number)));
        PBT_CHECK(i < raw.size(), "an incomplete sequence in %s", show(raw).c_str());
        if (raw[i] == 'm')
            select_graphics(look, p, raw);
        else if (raw[i] >= 'A' && raw[i] <= 'D')
        {
            PBT_CHECK(p.size() == 1, "a movement by %zu numbers in %s", p.size(), show(raw).c_str());
            cells.push_back({raw[i], p[0] ? p[0] : 1, look});
        }
        else
            fail(strf("an unknown sequence in %s", show(raw).c_str()));
    }
    if (at_end)
        *at_end = look;
    return cells;
}

inline void compare(std::vector<Cell> const &got, std::vector<Cell> const &want, std::string const &raw, std::string const &history)
{
    bool same = got.size() == want.size();
    for (std::size_t i = 0; same && i < got.size(); ++i)
        same = got[i].what == want[i].what && got[i].distance == want[i].distance && (got[i].distance != 0 || want[i].any_look || got[i].look == want[i].look);
    PBT_CHECK(same, "%s shows %s instead of %s: %s", show(raw).c_str(), show_cells(got).c_str(), show_cells(want).c_str(), history.c_str());
}

// ---- standard streams with buffers of ours -----------------------------------------------------------

struct Captured
{
    std::ostringstream out, err;
    std::streambuf *old_out {std::cout.rdbuf(out.rdbuf())};
    std::streambuf *old_err {std::cerr.rdbuf(err.rdbuf())};
    std::ios state_out {nullptr}, state_err {nullptr};
    Captured()
    {
        state_out.copyfmt(std::cout);
        state_err.copyfmt(std::cerr);
    }
    ~Captured()
    {
        std::cout.copyfmt(state_out);
        std::cerr.copyfmt(state_err);
        std::cout.rdbuf(old_out);
        std::cerr.rdbuf(old_err);
    }
};

} // namespace term
