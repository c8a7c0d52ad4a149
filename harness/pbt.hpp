// A small property-based testing engine.
//
// * Every random decision of a case is a draw from a recorded choice sequence (Src). A run is a pure
//   function of the code under test, VERIF_SEED and the tier.
// * Cases run in forked worker processes, so that a crash, a sanitizer report or a hang of the code
//   under test is attributed to the case that caused it.
// * A failing case is shrunk by editing its choice sequence, re-running each candidate in a fresh
//   forked process, and the result is written to a replay file.
// * Nothing is reported before the failure has been reproduced (see confirm()).
#pragma once

#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <poll.h>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <vector>

namespace pbt {

inline std::string strf(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string strf(char const *fmt, ...)
{
    va_list a, b;
    va_start(a, fmt);
    va_copy(b, a);
    int const n = std::vsnprintf(nullptr, 0, fmt, a);
    std::string s(static_cast<std::size_t>(n) + 1, '\0');
    std::vsnprintf(s.data(), s.size(), fmt, b);
    s.pop_back();
    va_end(a);
    va_end(b);
    return s;
}

// Printable rendering of any code unit sequence.
template <typename Range>
inline std::string show(Range const &r, std::size_t limit = 400)
{
    std::string s = "\"";
    std::size_t n = 0;
    for (auto c : r)
    {
        if (n++ >= limit)
        {
            s += "...";
            break;
        }
        auto const u = static_cast<std::uint32_t>(static_cast<std::make_unsigned_t<
            std::conditional_t<(sizeof(c) == 1), char, std::conditional_t<(sizeof(c) == 2), std::int16_t, std::int32_t>>>>(c));
        if ((u == '"') || (u == '\\'))
            s += '\\', s += static_cast<char>(u);
        else if ((u >= 0x20) && (u < 0x7f))
            s += static_cast<char>(u);
        else if (sizeof(c) == 1)
            s += strf("\\x%02x", u);
        else if (sizeof(c) == 2)
            s += strf("\\x{%04x}", u);
        else
            s += strf("\\x{%x}", u);
    }
    return s + "\"";
}

struct Failure
{
    std::string message;
};
struct Skip
{
};

[[noreturn]] inline void fail(std::string message)
{
    throw Failure {std::move(message)};
}

#define PBT_FAIL(...) ::pbt::fail(::pbt::strf(__VA_ARGS__))
#define PBT_CHECK(cond, ...)                                                                       \
    do                                                                                             \
    {                                                                                              \
        if (!(cond))                                                                               \
            ::pbt::fail(std::string("[" #cond "] ") + ::pbt::strf(__VA_ARGS__));                   \
    } while (0)

inline std::uint64_t mix(std::uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

// Shared between a worker and the parent, so that a crashing case leaves its choices behind.
struct Slot
{
    static constexpr std::size_t max_choices = 1u << 20;
    volatile std::uint64_t serial; // bumped at the start of each case
    volatile std::uint32_t target;
    volatile std::uint64_t index;
    volatile std::uint32_t busy;
    volatile std::uint32_t failed;
    volatile std::uint64_t choices;
    char message[1 << 14];
    std::uint64_t choice[max_choices];
};

// The source of choices of one case.
class Src
{
public:
    Src(Slot *slot, std::uint64_t seed) : m_slot(slot), m_state(seed) { m_slot->choices = 0; }
    Src(Slot *slot, std::vector<std::uint64_t> replay) : m_slot(slot), m_replay(std::move(replay)), m_replaying(true)
    {
        m_slot->choices = 0;
    }

    // A number in [0, n); 0 is the simplest choice. n == 0 stands for 2^64.
    std::uint64_t below(std::uint64_t n)
    {
        std::uint64_t v = 0;
        if (m_replaying)
        {
            if (m_pos < m_replay.size())
                v = m_replay[m_pos];
            if (n != 0 && v >= n)
                v %= n;
        }
        else
        {
            v = mix(m_state++ * 0xd1342543de82ef95ull);
            if (n != 0)
                v = static_cast<std::uint64_t>((static_cast<unsigned __int128>(v) * n) >> 64);
        }
        ++m_pos;
        if (m_slot->choices < Slot::max_choices)
        {
            m_slot->choice[m_slot->choices] = v;
            m_slot->choices = m_slot->choices + 1;
        }
        m_hash = mix(m_hash ^ v);
        return v;
    }

    // A number in [lo, hi]; lo is the simplest.
    std::int64_t range(std::int64_t lo, std::int64_t hi)
    {
        return static_cast<std::int64_t>(static_cast<std::uint64_t>(lo) +
            below(static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo) + 1));
    }
    // True with probability num/den; false is the simplest.
    bool chance(std::uint64_t num, std::uint64_t den) { return below(den) >= den - num; }
    bool flip() { return below(2) == 1; }
    std::uint64_t u64() { return below(0); }
    std::uint8_t byte() { return static_cast<std::uint8_t>(below(256)); }

    template <typename T>
    T const &pick(std::vector<T> const &v)
    {
        return v[below(v.size())];
    }
    template <typename T>
    T pick(std::initializer_list<T> v)
    {
        return *(v.begin() + below(v.size()));
    }
    // Index of the chosen weight.
    std::size_t weighted(std::initializer_list<unsigned> weights)
    {
        std::uint64_t total = 0;
        for (auto w : weights)
            total += w;
        std::uint64_t v = below(total);
        std::size_t i = 0;
        for (auto w : weights)
        {
            if (v < w)
                return i;
            v -= w;
            ++i;
        }
        return 0;
    }
    // A length in [0, max], biased to small values.
    std::size_t length(std::size_t max)
    {
        switch (weighted({6, 3, 1}))
        {
            case 0: return below(std::min<std::size_t>(max, 6) + 1);
            case 1: return below(std::min<std::size_t>(max, 40) + 1);
            default: return below(max + 1);
        }
    }
    // An integer with emphasis on small values and type boundaries.
    std::uint64_t interesting()
    {
        switch (weighted({4, 3, 3, 2, 2}))
        {
            case 0: return below(20);
            case 1: return below(300);
            case 2:
            {
                std::uint64_t const bit = below(65);
                std::uint64_t const base = (bit == 64) ? 0 : (1ull << bit);
                return base + static_cast<std::uint64_t>(range(-2, 2));
            }
            case 3: return u64() >> below(64);
            default: return ~below(300);
        }
    }

    void label(std::string const &l) { m_labels.insert(l); }
    void nontrivial() { m_nontrivial = true; }
    // Text that describes the case; cheap to skip when nobody reads it.
    bool want_note() const { return m_want_note; }
    void note(std::string const &text)
    {
        if (m_want_note && m_note.size() < 4000)
            m_note += (m_note.empty() ? "" : " ; ") + text;
    }
    // The case belongs to a recorded known finding: it is excluded (and counted).
    void exclude(std::string const &id);
    bool listed(std::string const &id) const;
    // Like exclude(), but goes on with the case.
    void excluded_part(std::string const &id) { m_excluded.insert(id); }

    // Walks through [0, n) over the cases of a target.
    std::uint64_t enumerate(std::uint64_t n)
    {
        if (m_replaying)
            return below(n);
        std::uint64_t const v = m_index % n;
        ++m_pos;
        if (m_slot->choices < Slot::max_choices)
        {
            m_slot->choice[m_slot->choices] = v;
            m_slot->choices = m_slot->choices + 1;
        }
        m_hash = mix(m_hash ^ v);
        return v;
    }

    std::uint64_t m_index {0};

    Slot *m_slot;
    std::uint64_t m_state {0};
    std::vector<std::uint64_t> m_replay;
    bool m_replaying {false};
    std::size_t m_pos {0};
    std::uint64_t m_hash {0x1234567};
    std::set<std::string> m_labels;
    std::set<std::string> m_excluded;
    bool m_nontrivial {false};
    bool m_want_note {false};
    std::string m_note;
};

struct Target
{
    std::string name;
    std::function<void(Src &)> run;
    std::uint64_t quick;             // number of cases in the quick tier
    std::uint64_t thorough;          // number of cases in the thorough tier
    bool nondeterministic {false};   // depends on scheduling: a failure need not replay
    unsigned timeout {60};           // seconds after which one case counts as hanging
    unsigned workers {8};
};

// A recorded finding: probe throws Failure while the defect is present.
struct Probe
{
    std::string id;
    std::string what;
    std::function<void()> probe;
};

struct Options
{
    std::string property;
    std::string rule;
    std::vector<Target> targets;
    std::vector<Probe> probes {};
    std::vector<std::string> assumptions {};
};

inline std::set<std::string> &listed_findings()
{
    static std::set<std::string> s;
    return s;
}
inline void Src::exclude(std::string const &id)
{
    if (listed(id))
    {
        m_excluded.insert(id);
        throw Skip {};
    }
}
inline bool Src::listed(std::string const &id) const
{
    return listed_findings().count(id) != 0;
}

namespace detail {

    inline double now()
    {
        return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }
    inline std::string json_str(std::string const &s)
    {
        std::string r = "\"";
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\')
                r += '\\', r += static_cast<char>(c);
            else if (c < 0x20 || c >= 0x7f)
                r += strf("\\u%04x", c);
            else
                r += static_cast<char>(c);
        }
        return r + "\"";
    }
    inline Slot *make_slot()
    {
        void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED)
        {
            std::perror("mmap");
            std::exit(2);
        }
        return static_cast<Slot *>(p);
    }

    struct Stats
    {
        std::uint64_t evaluations {0};
        std::uint64_t skipped {0};
        std::unordered_set<std::uint64_t> distinct;
        std::map<std::string, std::uint64_t> labels;
        std::map<std::string, std::uint64_t> excluded;
        std::map<std::string, std::uint64_t> per_target;
        std::vector<std::pair<std::string, std::string>> samples;

        void save(std::string const &path) const
        {
            std::ofstream o(path, std::ios::binary);
            auto put = [&](std::string const &s) { o << s.size() << ' ' << s << '\n'; };
            o << evaluations << ' ' << skipped << '\n' << distinct.size() << '\n';
            for (auto h : distinct)
                o.write(reinterpret_cast<char const *>(&h), 8);
            for (auto const *m : {&labels, &excluded, &per_target})
            {
                o << m->size() << '\n';
                for (auto const &kv : *m)
                {
                    o << kv.second << ' ';
                    put(kv.first);
                }
            }
            o << samples.size() << '\n';
            for (auto const &kv : samples)
            {
                put(kv.first);
                put(kv.second);
            }
        }
        bool merge(std::string const &path)
        {
            std::ifstream i(path, std::ios::binary);
            if (!i)
                return false;
            std::uint64_t e = 0, sk = 0, n = 0;
            i >> e >> sk >> n;
            i.get();
            evaluations += e;
            skipped += sk;
            for (std::uint64_t k = 0; k < n; ++k)
            {
                std::uint64_t h = 0;
                i.read(reinterpret_cast<char *>(&h), 8);
                distinct.insert(h);
            }
            auto get = [&]() {
                std::size_t len = 0;
                i >> len;
                i.get();
                std::string s(len, '\0');
                i.read(s.data(), static_cast<std::streamsize>(len));
                return s;
            };
            for (auto *m : {&labels, &excluded, &per_target})
            {
                i >> n;
                for (std::uint64_t k = 0; k < n; ++k)
                {
                    std::uint64_t c = 0;
                    i >> c;
                    auto const s = get();
                    (*m)[s] += c;
                }
            }
            i >> n;
            for (std::uint64_t k = 0; k < n; ++k)
            {
                auto a = get();
                auto b = get();
                samples.emplace_back(a, b);
            }
            return static_cast<bool>(i);
        }
    };

    enum class Outcome { Pass, Fail, Crash, Hang, Lost };

    inline char const *name(Outcome o)
    {
        switch (o)
        {
            case Outcome::Pass: return "pass";
            case Outcome::Fail: return "oracle failure";
            case Outcome::Crash: return "crash";
            case Outcome::Hang: return "hang";
            case Outcome::Lost: return "lost";
        }
        return "?";
    }

    struct Result
    {
        Outcome outcome {Outcome::Pass};
        std::string message;
        std::vector<std::uint64_t> choices;
        std::string note;
    };

    inline std::uint64_t case_seed(std::uint64_t seed, std::string const &target, std::uint64_t index)
    {
        std::uint64_t h = mix(seed);
        for (unsigned char c : target)
            h = mix(h ^ c);
        return mix(h ^ mix(index));
    }

    // Runs one case in this process. Returns true when it passed.
    inline bool run_case(Target const &t, Src &src, Slot *slot)
    {
        auto failed = [&](std::string const &m) {
            std::size_t const n = std::min(m.size(), sizeof(slot->message) - 1);
            std::memcpy(slot->message, m.data(), n);
            slot->message[n] = '\0';
            slot->failed = 1;
            return false;
        };
        try
        {
            t.run(src);
        }
        catch (Failure const &f)
        {
            return failed(f.message);
        }
        catch (Skip const &)
        {
        }
        catch (std::exception const &e)
        {
            return failed(std::string("unexpected exception: ") + e.what());
        }
        catch (...)
        {
            return failed("unexpected exception of unknown type");
        }
        return true;
    }

    inline void quiet_child(std::string const &err)
    {
        int const null = open("/dev/null", O_RDWR);
        dup2(null, 0);
        dup2(null, 1);
        int const e = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
        dup2(e < 0 ? null : e, 2);
        if (null > 2)
            close(null);
        if (e > 2)
            close(e);
    }

    inline std::string tail(std::string const &path)
    {
        std::ifstream i(path, std::ios::binary);
        std::string s((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
        auto p = s.find("ERROR: ");
        if (p == std::string::npos)
            p = s.find("runtime error: ");
        if (p == std::string::npos)
            p = s.find("WARNING: ThreadSanitizer");
        if (p != std::string::npos)
        {
            auto b = s.rfind('\n', p);
            s = s.substr(b == std::string::npos ? 0 : b + 1);
        }
        for (char const *cut : {"\nShadow bytes", "\nSUMMARY"})
        {
            if (auto c = s.find(cut); c != std::string::npos)
                s.resize(c);
        }
        return s.substr(0, 6000);
    }

    // Which of a target's workers this process is.
    inline unsigned &worker_index()
    {
        static unsigned i = 0;
        return i;
    }

    // Where the running case's description goes when it is replayed.
    inline std::string &note_path()
    {
        static std::string p;
        return p;
    }
    inline void write_note(Src const &src)
    {
        if (!note_path().empty())
            std::ofstream(note_path(), std::ios::binary) << src.m_note;
    }

    // Runs one case in a fresh process.
    inline Result run_forked(Target const &t, Slot *slot, std::vector<std::uint64_t> const &choices, std::string const &dir, double timeout)
    {
        std::string const err = dir + "/replay.err";
        slot->failed = 0;
        slot->message[0] = '\0';
        slot->choices = 0;
        pid_t const pid = fork();
        if (pid == 0)
        {
            setpgid(0, 0);
            quiet_child(err);
            Src src(slot, choices);
            src.m_want_note = true;
            note_path() = dir + "/replay.note";
            bool const ok = run_case(t, src, slot);
            write_note(src);
            _exit(ok ? 0 : 1);
        }
        setpgid(pid, pid);
        double const end = now() + timeout;
        Result r;
        int status = 0;
        for (unsigned spin = 0;; ++spin)
        {
            pid_t const w = waitpid(pid, &status, WNOHANG);
            if (w == pid)
                break;
            if (now() > end)
            {
                r.outcome = Outcome::Hang;
                kill(-pid, SIGKILL);
                kill(pid, SIGKILL);
                waitpid(pid, &status, 0);
                r.message = strf("no result within %.0f s", timeout);
                break;
            }
            usleep(spin < 200 ? 100 : 2000);
        }
        kill(-pid, SIGKILL); // anything the case left behind
        r.choices.assign(slot->choice, slot->choice + slot->choices);
        if (r.outcome == Outcome::Hang)
            return r;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && !slot->failed)
            r.outcome = Outcome::Pass;
        else if (slot->failed)
        {
            r.outcome = Outcome::Fail;
            r.message = slot->message;
        }
        else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL)
        {
            r.outcome = Outcome::Lost; // ended from outside (memory): says nothing
        }
        else
        {
            r.outcome = Outcome::Crash;
            r.message = WIFSIGNALED(status) ? strf("signal %d; ", WTERMSIG(status)) : strf("exit code %d; ", WEXITSTATUS(status));
            r.message += tail(err);
        }
        {
            std::ifstream i(dir + "/replay.note", std::ios::binary);
            r.note.assign((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
        }
        return r;
    }

    inline Result shrink(Target const &t, Slot *slot, Result best, std::string const &dir, double budget)
    {
        double const end = now() + budget;
        double const timeout = (best.outcome == Outcome::Hang) ? std::min<double>(t.timeout, 5.0) : t.timeout;
        std::uint64_t tries = 0;
        auto attempt = [&](std::vector<std::uint64_t> const &c) {
            if (now() > end)
                return false;
            ++tries;
            Result r = run_forked(t, slot, c, dir, timeout);
            if (r.outcome != best.outcome)
                return false;
            if (r.choices.size() > c.size())
                r.choices.resize(c.size());
            if (r.choices.size() > best.choices.size() ||
                (r.choices.size() == best.choices.size() && !(r.choices < best.choices)))
                return false;
            best = r;
            return true;
        };
        bool progress = true;
        while (progress && now() < end)
        {
            progress = false;
            for (std::size_t chunk = std::max<std::size_t>(best.choices.size() / 2, 1); chunk >= 1; chunk /= 2)
            {
                for (std::size_t i = 0; i < best.choices.size() && now() < end;)
                {
                    auto c = best.choices;
                    c.erase(c.begin() + static_cast<std::ptrdiff_t>(i), c.begin() + static_cast<std::ptrdiff_t>(std::min(i + chunk, c.size())));
                    if (attempt(c))
                        progress = true;
                    else
                        i += chunk;
                }
                for (std::size_t i = 0; i < best.choices.size() && now() < end; i += chunk)
                {
                    auto c = best.choices;
                    bool changed = false;
                    for (std::size_t k = i; k < std::min(i + chunk, c.size()); ++k)
                        changed |= std::exchange(c[k], 0) != 0;
                    if (changed && attempt(c))
                        progress = true;
                }
            }
            for (std::size_t i = 0; i < best.choices.size() && now() < end; ++i)
            {
                std::uint64_t lo = 0;
                while (i < best.choices.size() && lo < best.choices[i] && now() < end)
                {
                    auto c = best.choices;
                    c[i] = lo + (c[i] - lo) / 2;
                    if (c[i] == best.choices[i])
                        break;
                    std::uint64_t const tried = c[i];
                    if (attempt(c))
                        progress = true;
                    else
                        lo = tried + 1;
                }
                // delete one choice while decrementing an earlier one (list lengths)
                if (i < best.choices.size() && best.choices[i] > 0 && best.choices[i] < 64)
                {
                    for (std::size_t k = 1; k <= 4 && i + k < best.choices.size() && now() < end; ++k)
                    {
                        auto c = best.choices;
                        --c[i];
                        c.erase(c.begin() + static_cast<std::ptrdiff_t>(i + 1), c.begin() + static_cast<std::ptrdiff_t>(i + 1 + k));
                        if (attempt(c))
                        {
                            progress = true;
                            break;
                        }
                    }
                }
            }
        }
        std::fprintf(stderr, "shrunk to %zu choices in %llu runs\n", best.choices.size(), static_cast<unsigned long long>(tries));
        return best;
    }

    inline std::string choices_text(std::vector<std::uint64_t> const &c)
    {
        std::string s;
        for (auto v : c)
            s += std::to_string(v) + " ";
        return s;
    }

    // Cases index = worker, worker + workers, ... of one target, in this process.
    inline void work(Options const &o, Target const &t, std::uint32_t ti, Slot *slot, std::uint64_t seed, std::uint64_t first, std::uint64_t step, std::uint64_t last, std::string const &out, double deadline = 1e300)
    {
        Stats st;
        for (std::uint64_t i = first; i < last; i += step)
        {
            if (now() > deadline)
            {
                ++st.labels[t.name + ": (worker stopped at the time limit)"];
                break;
            }
            slot->target = ti;
            slot->index = i;
            slot->failed = 0;
            slot->serial = slot->serial + 1;
            slot->busy = 1;
            Src src(slot, case_seed(seed, t.name, i));
            src.m_index = i;
            std::uint64_t const pick = mix(case_seed(seed, t.name, i) ^ 77);
            src.m_want_note = !out.empty() && (i < 2 || (st.samples.size() < 4 && pick % 97 == 0));
            bool const ok = run_case(t, src, slot);
            slot->busy = 0;
            if (!ok)
                _exit(1);
            ++st.evaluations;
            ++st.per_target[t.name];
            if (!src.m_excluded.empty())
                ++st.skipped;
            for (auto const &e : src.m_excluded)
                ++st.excluded[e];
            for (auto const &l : src.m_labels)
                ++st.labels[t.name + ": " + l];
            if (src.m_nontrivial)
            {
                st.distinct.insert(mix(src.m_hash ^ ti));
                if (src.m_want_note && !src.m_note.empty())
                    st.samples.emplace_back(t.name, src.m_note);
            }
        }
        if (!out.empty())
            st.save(out);
    }

} // namespace detail

// Entry point of every check:
//   <binary> --seed N --tier quick|thorough --dir SCRATCH --evidence FILE --replay-dir DIR [--known ID]...
//   <binary> --dir SCRATCH --replay FILE
inline std::string file_name(std::string name)
{
    std::replace(name.begin(), name.end(), ' ', '_');
    return name;
}

inline int main(int argc, char **argv, Options o)
{
    using namespace detail;
    std::uint64_t seed = 1;
    std::string tier = "quick", dir = "/tmp", evidence, replay_dir = ".", replay, only;
    double scale = 1, cap = -1;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string const a = argv[i], v = argv[i + 1];
        if (a == "--seed")
            seed = std::strtoull(v.c_str(), nullptr, 10);
        else if (a == "--tier")
            tier = v;
        else if (a == "--dir")
            dir = v;
        else if (a == "--evidence")
            evidence = v;
        else if (a == "--replay-dir")
            replay_dir = v;
        else if (a == "--replay")
            replay = v;
        else if (a == "--target")
            only = v;
        else if (a == "--scale")
            scale = std::atof(v.c_str());
        else if (a == "--cap")
            cap = std::atof(v.c_str());
        else if (a == "--known")
            listed_findings().insert(v);
    }
    bool const thorough = tier == "thorough";
    if (cap < 0)
        cap = thorough ? 2400 : 240;
    double const start = now();
    signal(SIGPIPE, SIG_IGN);
    Slot *replay_slot = make_slot();

    if (!replay.empty())
    {
        std::ifstream f(replay);
        std::string line, target, kind;
        std::vector<std::uint64_t> choices;
        std::uint64_t bseed = 1, bfirst = 0, bstep = 1, blast = 0;
        while (std::getline(f, line))
        {
            std::istringstream is(line);
            std::string key;
            is >> key;
            if (key == "target:")
                std::getline(is >> std::ws, target);
            else if (key == "choices:")
            {
                kind = key;
                std::uint64_t v;
                while (is >> v)
                    choices.push_back(v);
            }
            else if (key == "batch:")
            {
                kind = key;
                is >> bseed >> bfirst >> bstep >> blast;
            }
        }
        for (std::uint32_t ti = 0; ti < o.targets.size(); ++ti)
        {
            auto const &t = o.targets[ti];
            if (t.name != target)
                continue;
            if (kind == "batch:")
            {
                work(o, t, ti, replay_slot, bseed, bfirst, bstep, blast, "");
                return 0;
            }
            for (int k = 0; k < (t.nondeterministic ? 30 : 1); ++k)
            {
                auto r = run_forked(t, replay_slot, choices, dir, t.timeout);
                std::printf("%s\n%s\n%s\n", name(r.outcome), r.message.c_str(), r.note.c_str());
                if (r.outcome != Outcome::Pass)
                {
                    std::printf("VIOLATION property=%s replay=%s\n", o.property.c_str(), replay.c_str());
                    return 1;
                }
            }
            return 0;
        }
        std::fprintf(stderr, "no such target: %s\n", target.c_str());
        return 2;
    }

    // Recorded findings that are still present.
    unsigned findings = 0;
    for (auto const &p : o.probes)
    {
        if (!listed_findings().count(p.id))
            continue;
        Target t {p.id, [&](Src &) { p.probe(); }, 1, 1};
        t.timeout = 20;
        auto r = run_forked(t, replay_slot, {}, dir, t.timeout);
        if (r.outcome != Outcome::Pass)
        {
            ++findings;
            std::printf("KNOWN-FINDING: property=%s %s %s\n", o.property.c_str(), p.id.c_str(), p.what.c_str());
        }
    }
    std::fflush(stdout);

    Stats total;
    struct Worker
    {
        pid_t pid;
        Slot *slot;
        std::string out, err;
        std::uint64_t first, step, last;
        std::uint64_t serial;
        double since;
        bool done;
    };
    std::vector<Slot *> slots;
    std::vector<std::string> inconclusive;
    std::uint64_t planned = 0;

    for (std::uint32_t ti = 0; ti < o.targets.size(); ++ti)
    {
        auto const &t = o.targets[ti];
        if (!only.empty() && t.name != only)
            continue;
        std::uint64_t const count = std::max<std::uint64_t>(1, static_cast<std::uint64_t>(scale * static_cast<double>(thorough ? t.thorough : t.quick)));
        planned += count;
        unsigned const n = static_cast<unsigned>(std::min<std::uint64_t>(t.workers, count));
        double const tstart = now();
        double const tend = tstart + cap / static_cast<double>(o.targets.size()) + 10;
        std::vector<Worker> ws;
        while (slots.size() < n)
            slots.push_back(make_slot());
        for (unsigned w = 0; w < n; ++w)
        {
            Worker wk {0, slots[w], dir + strf("/w%u.%u.stats", ti, w), dir + strf("/w%u.%u.err", ti, w), w, n, count, 0, now(), false};
            wk.slot->busy = 0;
            wk.slot->failed = 0;
            wk.serial = wk.slot->serial;
            unlink(wk.out.c_str());
            wk.pid = fork();
            if (wk.pid == 0)
            {
                setpgid(0, 0);
                quiet_child(wk.err);
                worker_index() = static_cast<unsigned>(w), work(o, t, ti, wk.slot, seed, w, n, count, wk.out, tend);
                _exit(0);
            }
            setpgid(wk.pid, wk.pid);
            ws.push_back(wk);
        }

        int failing = -1;
        Result found;
        unsigned left = n;
        bool capped = false;
        while (left != 0 && failing < 0)
        {
            usleep(3000);
            for (unsigned w = 0; w < n && failing < 0; ++w)
            {
                auto &wk = ws[w];
                if (wk.done)
                    continue;
                int status = 0;
                if (waitpid(wk.pid, &status, WNOHANG) == wk.pid)
                {
                    wk.done = true;
                    --left;
                    kill(-wk.pid, SIGKILL);
                    if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && !wk.slot->failed)
                        continue;
                    if (!wk.slot->failed && WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL)
                    {
                        inconclusive.push_back(t.name + ": a worker was killed from outside");
                        continue;
                    }
                    failing = static_cast<int>(w);
                    found.outcome = wk.slot->failed ? Outcome::Fail : Outcome::Crash;
                    found.message = wk.slot->failed ? std::string(wk.slot->message) : tail(wk.err);
                }
                else if (wk.serial != wk.slot->serial)
                {
                    wk.serial = wk.slot->serial;
                    wk.since = now();
                }
                else if (wk.slot->busy && now() - wk.since > t.timeout)
                {
                    failing = static_cast<int>(w);
                    found.outcome = Outcome::Hang;
                    found.message = strf("no result within %u s", t.timeout);
                }
            }
            if (failing < 0 && now() > tend + t.timeout + 5)
            {
                capped = true;
                break;
            }
        }
        if (failing >= 0)
        {
            auto const c = ws[failing].slot->choices;
            found.choices.assign(ws[failing].slot->choice, ws[failing].slot->choice + c);
        }
        for (auto &wk : ws)
        {
            if (!wk.done)
            {
                kill(-wk.pid, SIGKILL);
                kill(wk.pid, SIGKILL);
                waitpid(wk.pid, nullptr, 0);
            }
        }
        if (capped)
            inconclusive.push_back(t.name + ": stopped at the time limit");
        for (auto &wk : ws)
            total.merge(wk.out);

        if (failing >= 0)
        {
            std::fprintf(stderr, "%s: %s: %s\n", t.name.c_str(), name(found.outcome), found.message.c_str());
            std::uint64_t const index = ws[failing].slot->index;
            Result first = found, best = found;
            bool batch = false, confirmed = false;
            if (t.nondeterministic)
            {
                // An oracle failure or a crash of a schedule-dependent case is a fact; a hang has to repeat.
                unsigned const reps = (found.outcome == Outcome::Hang) ? 3 : 20;
                confirmed = found.outcome != Outcome::Hang;
                double const end = now() + 200;
                for (unsigned k = 0; k < reps && now() < end; ++k)
                {
                    auto r = run_forked(t, replay_slot, found.choices, dir, t.timeout);
                    if (r.outcome != Outcome::Pass && r.outcome != Outcome::Lost)
                    {
                        confirmed = true;
                        best = r;
                        break;
                    }
                }
            }
            else
            {
                auto r = run_forked(t, replay_slot, found.choices, dir, t.timeout);
                if (r.outcome != Outcome::Pass && r.outcome != Outcome::Lost)
                {
                    best = shrink(t, replay_slot, r, dir, 45);
                    unsigned same = 0;
                    for (unsigned k = 0; k < 3; ++k)
                    {
                        auto again = run_forked(t, replay_slot, best.choices, dir, t.timeout);
                        same += again.outcome != Outcome::Pass && again.outcome != Outcome::Lost;
                    }
                    confirmed = same == 3;
                    if (!confirmed)
                    {
                        // shrunk too far (e.g. a hang that is only slow): fall back to the original
                        best = r;
                        same = 0;
                        for (unsigned k = 0; k < 3; ++k)
                        {
                            auto again = run_forked(t, replay_slot, best.choices, dir, t.timeout);
                            same += again.outcome != Outcome::Pass && again.outcome != Outcome::Lost;
                        }
                        confirmed = same == 3;
                    }
                }
                if (!confirmed)
                {
                    // Depends on earlier cases of the same process: replay the whole batch.
                    unsigned same = 0;
                    for (unsigned k = 0; k < 3; ++k)
                    {
                        replay_slot->failed = 0;
                        pid_t const pid = fork();
                        if (pid == 0)
                        {
                            setpgid(0, 0);
                            quiet_child(dir + "/batch.err");
                            alarm(200);
                            work(o, t, ti, replay_slot, seed, ws[failing].first, ws[failing].step, index + 1, "");
                            _exit(0);
                        }
                        int status = 0;
                        waitpid(pid, &status, 0);
                        kill(-pid, SIGKILL);
                        bool const bad = replay_slot->failed || (WIFEXITED(status) && WEXITSTATUS(status) != 0) ||
                            (WIFSIGNALED(status) && WTERMSIG(status) != SIGKILL && WTERMSIG(status) != SIGALRM);
                        if (!bad)
                            break;
                        ++same;
                    }
                    if (same == 3)
                    {
                        confirmed = batch = true;
                        best = found;
                    }
                }
            }
            if (confirmed)
            {
                mkdir(replay_dir.c_str(), 0755);
                std::string const path = replay_dir + "/" + o.property + "-" + file_name(t.name) + strf("-%016llx.replay", static_cast<unsigned long long>(mix(best.choices.size() ^ index ^ mix(seed))));
                {
                    std::ofstream f(path);
                    f << "property: " << o.property << "\ntarget: " << t.name << "\n";
                    if (batch)
                        f << "batch: " << seed << ' ' << ws[failing].first << ' ' << ws[failing].step << ' ' << index + 1 << "\n";
                    else
                        f << "choices: " << choices_text(best.choices) << "\n";
                    f << "outcome: " << name(best.outcome) << "\nmessage: " << best.message << "\ncase: " << best.note << "\nfirst-message: " << first.message << "\n";
                }
                std::printf("%s (%s)\n%s\ncase: %s\n", name(best.outcome), t.name.c_str(), best.message.c_str(), best.note.c_str());
                std::printf("VIOLATION property=%s replay=%s\n", o.property.c_str(), path.c_str());
                std::fflush(stdout);
                total.evaluations += 1;
                if (!evidence.empty())
                {
                    std::ofstream e(evidence);
                    e << "{\"property\": " << json_str(o.property) << ", \"tier\": " << json_str(tier) << ", \"seed\": " << seed
                      << ", \"level\": \"exploration\", \"coverage\": {\"evaluations\": " << total.evaluations
                      << ", \"distinct_nontrivial\": " << total.distinct.size() << ", \"rule\": " << json_str(o.rule)
                      << ", \"samples\": [" << json_str(best.note.empty() ? best.message : best.note) << "]}, \"wall_s\": " << (now() - start)
                      << ", \"violations\": 1}\n";
                }
                return 1;
            }
            inconclusive.push_back(t.name + ": a failure that did not reproduce: " + first.message.substr(0, 600));
            std::fprintf(stderr, "not reproducible, not reported: %s\n", first.message.c_str());
        }
        std::fprintf(stderr, "%-28s %8llu cases %6.1f s\n", t.name.c_str(), static_cast<unsigned long long>(count), now() - tstart);
    }

    if (!evidence.empty())
    {
        std::ofstream e(evidence);
        e << "{\"property\": " << json_str(o.property) << ", \"tier\": " << json_str(tier) << ", \"seed\": " << seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\"evaluations\": " << total.evaluations << ", \"planned\": " << planned
          << ", \"distinct_nontrivial\": " << total.distinct.size() << ", \"rule\": " << json_str(o.rule) << ",\n";
        auto dump = [&](char const *k, std::map<std::string, std::uint64_t> const &m) {
            e << "  \"" << k << "\": {";
            bool f = true;
            for (auto const &kv : m)
            {
                e << (f ? "" : ", ") << json_str(kv.first) << ": " << kv.second;
                f = false;
            }
            e << "},\n";
        };
        dump("cases_per_target", total.per_target);
        dump("classes", total.labels);
        dump("excluded_known_findings", total.excluded);
        e << "  \"inconclusive\": [";
        for (std::size_t i = 0; i < inconclusive.size(); ++i)
            e << (i ? ", " : "") << json_str(inconclusive[i]);
        e << "],\n  \"known_findings_present\": " << findings << ",\n  \"samples\": [";
        std::map<std::string, unsigned> per;
        bool f = true;
        for (auto const &kv : total.samples)
        {
            if (per[kv.first]++ >= 4)
                continue;
            e << (f ? "\n   " : ",\n   ") << json_str(kv.first + ": " + kv.second.substr(0, 600));
            f = false;
        }
        e << "]},\n \"assumptions\": [";
        for (std::size_t i = 0; i < o.assumptions.size(); ++i)
            e << (i ? ", " : "") << json_str(o.assumptions[i]);
        e << "],\n \"wall_s\": " << (now() - start) << ",\n \"violations\": 0}\n";
    }
    for (auto const &s : inconclusive)
        std::fprintf(stderr, "inconclusive: %s\n", s.c_str());
    std::printf("ok property=%s cases=%llu distinct_nontrivial=%zu wall=%.1fs\n", o.property.c_str(), static_cast<unsigned long long>(total.evaluations), total.distinct.size(), now() - start);
    return 0;
}

} // namespace pbt

#if defined(__SANITIZE_ADDRESS__)
extern "C" inline __attribute__((used, visibility("default"))) char const *__asan_default_options()
{
    return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:symbolize=0:detect_stack_use_after_return=0:max_allocation_size_mb=3000:quarantine_size_mb=16:malloc_context_size=5";
}
extern "C" inline __attribute__((used, visibility("default"))) char const *__ubsan_default_options()
{
    return "print_stacktrace=0:symbolize=0:exitcode=77";
}
#endif
#if defined(__SANITIZE_THREAD__)
extern "C" inline __attribute__((used, visibility("default"))) char const *__tsan_default_options()
{
    return "exitcode=77:symbolize=0:halt_on_error=1:report_signal_unsafe=0:atexit_sleep_ms=0:detect_deadlocks=0:report_thread_leaks=0";
}
#endif
