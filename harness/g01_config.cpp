// G01: configurations converge to the file's values, or defaults, after any history.
//
// A ConfigManager over a real file below a scratch directory; its polling thread runs in the
// simulation of sim.hpp, so that its interleaving with the case's operations and the time are
// generated. "history": one thread writes, replaces, corrupts, deletes and recreates the file,
// creates and drops configurations of several types, and drops and makes managers; a model knows
// the content and which configurations live. "threads": others read values and create and drop
// configurations meanwhile, and the manager is dropped at any time.
// Oracle: once the file is stable and was polled, every value of every live configuration is that
// of the content where it is there and convertible (conversions themselves are J03's), and the
// default otherwise; every read in between is a value of a content that was written before, and no
// older one than was read before, or the default.
#include "sim_io.hpp"

#include "fly/config/config.hpp"
#include "fly/config/config_manager.hpp"
#include "fly/path/path_config.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"
#include "fly/types/json/json.hpp"

#include "quiet.hpp"
#include "scratch.hpp"

#include <optional>
#include <thread>

using namespace pbt;
using fly::config::ConfigFileType;
using fly::config::ConfigManager;
namespace fs = std::filesystem;

namespace {

struct Base : fly::config::Config
{
    template <typename T>
    T get(std::string const &name, T def) const
    {
        return get_value<T>(name, def);
    }
};
struct Alpha : Base
{
    static constexpr char const *identifier = "alpha";
};
struct Other : Base // another type of that name
{
    static constexpr char const *identifier = "alpha";
};
struct Beta : Base
{
    static constexpr char const *identifier = "beta";
};
struct Gamma : Base // never in a file under a plain name
{
    static constexpr char const *identifier = "a name.with/\xc3\xbc";
};

// ---- contents ----

struct Value
{
    enum Kind { Null, Int, Bool, Real, Text, List, Map } kind {Null};
    long long i {0};
    bool b {false};
    double d {0};
    std::string s;

    fly::Json json() const
    {
        switch (kind)
        {
            case Int: return fly::Json(i);
            case Bool: return fly::Json(b);
            case Real: return fly::Json(d);
            case Text: return fly::Json(s);
            case List: return fly::Json(std::vector<int> {1, 2});
            case Map: return fly::Json(std::map<std::string, int> {{"i", 5}});
            default: return fly::Json(nullptr);
        }
    }
    std::string text() const
    {
        switch (kind)
        {
            case Int: return std::to_string(i);
            case Bool: return b ? "true" : "false";
            case Real: return strf("%.2f", d);
            case Text: return "\"" + s + "\"";
            case List: return "[1, 2]";
            case Map: return "{\"i\": 5}";
            default: return "null";
        }
    }
};

struct Section
{
    bool object {true}; // otherwise it is something else, of which no value can be had
    std::string other;
    std::map<std::string, Value> values;
};
using Content = std::map<std::string, Section>; // what a parsed file holds; empty for what does not parse

std::vector<std::string> const s_names = {"version", "i", "s", "b", "d", "name with spaces", "\xc3\xbc"};
std::vector<std::string> const s_sections = {"alpha", "beta", "path", "gamma", Gamma::identifier};

struct Written
{
    Content content;                 // of the whole file
    std::vector<std::string> pieces; // its text
    int version {0};
};

Value make_value(Src &src, bool ini)
{
    Value v;
    static char const *const texts[] = {"abc", "12", "-7", "1.5", "true", "1", "0", "x y", "\xc3\xbc", "300000000000", "z"};
    if (ini)
    {
        v.kind = Value::Text;
        v.s = texts[src.below(11)];
        return v;
    }
    v.kind = static_cast<Value::Kind>(src.weighted({1, 3, 1, 2, 2, 1, 1}));
    v.i = src.pick({0ll, 1ll, -1ll, 77ll, 65536ll, 5000000000ll});
    v.b = src.flip();
    v.d = src.pick({0.5, 1.0, -2.25, 1e6});
    v.s = src.chance(1, 6) ? "" : texts[src.below(11)];
    return v;
}

// The text of a content, in pieces.
void render(Src &src, bool ini, Written &w);

// A content that parses, with its version in every section.
Written make_content(Src &src, bool ini, int version)
{
    Written w;
    w.version = version;
    for (auto const &name : s_sections)
    {
        if (!src.chance(2, 3))
            continue;
        Section &section = w.content[name];
        if (name == "path")
        {
            Value v;
            v.kind = ini ? Value::Text : Value::Int;
            v.i = src.pick({1ll, 20ll, 500ll, 3000ll});
            v.s = std::to_string(v.i);
            section.values["poll_interval"] = v;
        }
        else
        {
            Value v;
            v.kind = ini ? Value::Text : Value::Int;
            v.i = version;
            v.s = std::to_string(version);
            section.values["version"] = v;
            for (std::size_t i = 1; i < s_names.size(); ++i)
                if (src.chance(1, 2))
                    section.values[s_names[i]] = make_value(src, ini);
            if (!ini && src.chance(1, 10))
            {
                section.object = false;
                section.other = src.pick({std::string("3"), std::string("\"text\""), std::string("[1]"), std::string("null"), std::string("false")});
            }
        }
    }
    render(src, ini, w);
    return w;
}

// A value which differs little, if at all: an equal one of another type, for instance.
Value similar_value(Src &src, bool ini, Value v)
{
    if (ini)
    {
        static std::map<std::string, std::vector<std::string>> const near = {{"1", {"true", "1.0", "01"}}, {"0", {"-0", "0.0", "false"}}, {"12", {"12.0", "012"}}, {"true", {"1", "True"}}};
        auto it = near.find(v.s);
        v.s = it == near.end() ? make_value(src, ini).s : it->second[src.below(it->second.size())];
        return v;
    }
    switch (v.kind)
    {
        case Value::Int:
            if (src.flip() && std::abs(v.i) <= 100000)
                v.kind = Value::Real, v.d = static_cast<double>(v.i);
            else if (src.flip() && v.i >= 0 && v.i <= 1)
                v.kind = Value::Bool, v.b = v.i == 1;
            else
                v.kind = Value::Text, v.s = std::to_string(v.i);
            break;
        case Value::Real:
            if (v.d == static_cast<double>(static_cast<long long>(v.d)))
                v.kind = Value::Int, v.i = static_cast<long long>(v.d);
            else
                v.kind = Value::Text, v.s = strf("%.2f", v.d);
            break;
        case Value::Bool:
            if (src.flip())
                v.kind = Value::Int, v.i = v.b;
            else
                v.kind = Value::Text, v.s = v.b ? "true" : "false";
            break;
        case Value::Text:
            if (v.s == "12" || v.s == "-7" || v.s == "0" || v.s == "1")
                v.kind = Value::Int, v.i = std::stoll(v.s);
            else
                v.s += src.flip() ? "x" : " ";
            break;
        case Value::Null:
            if (src.flip())
                v.kind = Value::Text, v.s = "";
            else
                v.kind = Value::Int, v.i = 0;
            break;
        default: v = make_value(src, ini); break;
    }
    return v;
}

// The same content again, or one that differs in one value, under the same version.
Written make_similar(Src &src, bool ini, Written const &from)
{
    Written w;
    w.version = from.version;
    w.content = from.content;
    std::vector<Section *> sections;
    for (auto &[name, section] : w.content)
        if (section.object && name != "path")
            sections.push_back(&section);
    if (!sections.empty() && src.chance(7, 8))
    {
        for (std::uint64_t n = 1 + src.below(3); n > 0; --n)
        {
            Section &section = *sections[src.below(sections.size())];
            std::string key = s_names[1 + src.below(s_names.size() - 1)];
            if (section.values.size() > 1 && src.chance(3, 4))
            {
                do // one of those that there are, which are sorted
                    key = std::next(section.values.begin(), static_cast<std::ptrdiff_t>(src.below(section.values.size())))->first;
                while (key == "version");
            }
            auto it = section.values.find(key);
            if (it == section.values.end())
                section.values[key] = make_value(src, ini);
            else if (src.chance(1, 5))
                section.values.erase(it);
            else
                it->second = similar_value(src, ini, it->second);
        }
    }
    render(src, ini, w);
    return w;
}

void render(Src &src, bool ini, Written &w)
{
    if (ini)
    {
        std::vector<std::string> lines;
        for (auto const &[name, section] : w.content)
        {
            lines.push_back("[" + name + "]\n");
            for (auto const &[key, value] : section.values)
                lines.push_back(key + (src.flip() ? "=" : " = ") + (src.chance(1, 3) ? "\"" + value.s + "\"" : value.s) + "\n");
        }
        lines.push_back("; the end\n");
        std::size_t const pieces = 1 + src.below(3);
        for (std::size_t at = 0; at < lines.size();)
        {
            std::size_t const left = lines.size() - at;
            std::size_t const n = w.pieces.size() + 1 == pieces ? left : std::min(left, 1 + static_cast<std::size_t>(src.below(left)));
            std::string piece;
            for (std::size_t i = 0; i < n; ++i)
                piece += lines[at++];
            w.pieces.push_back(piece);
        }
    }
    else
    {
        std::string text = "{";
        for (auto const &[name, section] : w.content)
        {
            text += (text.size() > 1 ? ",\n\"" : "\n\"") + name + "\": ";
            if (!section.object)
            {
                text += section.other;
                continue;
            }
            std::string inner;
            for (auto const &[key, value] : section.values)
                inner += (inner.empty() ? "\"" : ", \"") + key + "\": " + value.text();
            text += "{" + inner + "}";
        }
        text += "\n}";
        std::size_t const pieces = 1 + src.below(3);
        for (std::size_t at = 0; at < text.size();)
        {
            std::size_t const left = text.size() - at;
            std::size_t const n = w.pieces.size() + 1 == pieces ? left : std::min(left, 1 + static_cast<std::size_t>(src.below(left)));
            w.pieces.push_back(text.substr(at, n));
            at += n;
        }
    }
}

// What no configuration can be read from.
Written make_corrupt(Src &src, bool ini)
{
    Written w;
    static char const *const bad_json[] = {"", "{", "[1, 2]", "3", "\"alpha\"", "{\"alpha\": {\"version\": 1000}", "null", "{\"alpha\": {\"version\": 1}} x", "\xff", "true"};
    static char const *const bad_ini[] = {"", "[alpha\n", "version=1000\n", "[alpha]\nversion\n", "[alpha]\n=5\n", "[\"alpha\"]\nversion=1\n", "; nothing\n", "[alpha]\nversion=\n", "[alpha]\nversion=1\n]\n"};
    w.pieces.push_back(ini ? bad_ini[src.below(9)] : bad_json[src.below(10)]);
    return w;
}

// ---- the case's file ----

struct File
{
    enum State { Absent, There, Directory };
    fs::path dir, path, elsewhere;
    bool ini {false};
    State state {Absent};
    Written now; // what there is, for There
    Written good; // what was last written of those that parse
    int versions {1000};
    std::uint64_t changes {0};
    std::string text;
    std::vector<std::uint64_t> begun; // by version - 1000: when it was first written

    std::string whole(Written const &w) const
    {
        std::string s;
        for (auto const &p : w.pieces)
            s += p;
        return s;
    }
    // Moves the writer on between system calls.
    static void pause(Src &src)
    {
        for (std::uint64_t n = src.below(3); n > 0; --n)
            if (sim::detail::on())
                sim::point();
    }
    void say(std::string const &what)
    {
        sim::Quiet quiet;
        text += " " + what + ";";
    }
    void append(int flags, std::string const &data)
    {
        int const fd = ::open(path.c_str(), O_WRONLY | O_CREAT | flags, 0644);
        PBT_CHECK(fd >= 0, "the case's own open failed");
        PBT_CHECK(::write(fd, data.data(), data.size()) == static_cast<ssize_t>(data.size()), "the case's own write failed");
        ::close(fd);
    }

    void change(Src &src)
    {
        ++changes;
        int const what = static_cast<int>(src.weighted({5, 5, 3, 2, 1, 2, 1}));
        if (state == Directory && what != 3)
            return;
        switch (what)
        {
            case 0: // in place, in pieces
            case 1: // by a new file
            case 2: // something bad, either way
            {
                Written w = what == 2 ? make_corrupt(src, ini) : good.version != 0 && src.flip() ? make_similar(src, ini, good) : make_content(src, ini, ++versions);
                if (what != 2)
                    good = w;
                begun.push_back(sim::tick());
                if (what == 1 || (what == 2 && src.flip()))
                {
                    say(strf("replaced by %d", w.version));
                    fs::path const from = src.flip() ? dir / "new" : elsewhere / "new";
                    write_file(from, whole(w));
                    pause(src);
                    fs::rename(from, path);
                }
                else
                {
                    say(strf("written %d in %zu", w.version, w.pieces.size()));
                    bool first = true;
                    for (auto const &piece : w.pieces)
                    {
                        append(first ? O_TRUNC : O_APPEND, piece);
                        first = false;
                        pause(src);
                    }
                }
                state = There;
                now = std::move(w);
                if (what == 2)
                    now.content.clear();
                break;
            }
            case 3:
                if (state == Absent)
                    break;
                say("deleted");
                fs::remove(path);
                state = Absent;
                break;
            case 4:
                if (state == Absent)
                {
                    say("a directory");
                    fs::create_directory(path);
                    state = Directory;
                }
                break;
            case 5:
                if (state == There)
                {
                    say("moved away and back");
                    fs::rename(path, dir / "away");
                    pause(src);
                    fs::rename(dir / "away", path);
                }
                break;
            default:
                say("something else");
                write_file(dir / "other", "[alpha]\nversion=1\n");
                fs::remove(dir / "other");
                break;
        }
    }

    Section const *section(std::string const &name) const
    {
        if (state != There)
            return nullptr;
        auto it = now.content.find(name);
        return it == now.content.end() || !it->second.object ? nullptr : &it->second;
    }
    template <typename T>
    T expected(std::string const &name, std::string const &key, T def) const
    {
        Section const *s = section(name);
        if (s == nullptr)
            return def;
        auto it = s->values.find(key);
        if (it == s->values.end())
            return def;
        try
        {
            fly::Json const value = it->second.json();
            return T(value);
        }
        catch (fly::JsonException const &)
        {
            return def;
        }
    }
};

template <typename T>
std::string shown(T const &v)
{
    if constexpr (std::is_same_v<T, std::string>)
        return "'" + v + "'";
    else
        return std::to_string(v);
}

template <typename T>
void check_value(File const &f, Base const &c, std::string const &name, std::string const &key, T def)
{
    T const got = c.get<T>(key, def);
    sim::Quiet quiet;
    T const want = f.expected<T>(name, key, def);
    if (!(got == want))
        SIM_FAIL("%s of %s is %s, not %s;%s", key.c_str(), name.c_str(), shown(got).c_str(), shown(want).c_str(), f.text.c_str());
}

// Everything that can be read of a configuration is as the file has it.
void check_all(File const &f, Base const &c, std::string const &name)
{
    for (auto const &key : s_names)
    {
        check_value<int>(f, c, name, key, -5);
        check_value<std::string>(f, c, name, key, "default");
        check_value<bool>(f, c, name, key, true);
        check_value<bool>(f, c, name, key, false);
        check_value<double>(f, c, name, key, 99.5);
        check_value<std::uint8_t>(f, c, name, key, 200);
        check_value<std::int64_t>(f, c, name, key, -1);
    }
    for (char const *key : {"", "none", "\xff", "alpha", "version2"})
        SIM_CHECK(c.get<int>(key, 4711) == 4711, "%s has a value that is not in the file;%s", name.c_str(), f.text.c_str());
}

// Waits until everything that was changed so far has been polled and handled.
void settle(File const &f)
{
    std::map<int, std::uint64_t> const before = sim::io::state().idle;
    bool const ok = sim::wait_until(
        [&before]() {
            for (auto const &[fd, count] : before)
            {
                auto it = sim::io::state().idle.find(fd);
                if (it != sim::io::state().idle.end() && it->second < count + 1)
                    return false;
            }
            return true;
        },
        600ll * 1000 * sim::ms);
    if (!ok)
        SIM_FAIL("the file is not polled any more;%s", f.text.c_str());
}

// What a history holds of one type of configuration.
template <typename T>
struct Holder
{
    std::shared_ptr<T> ptr;
    bool current {false}; // made by the manager that lives
};

File make_file(Src &src, CaseDir const &dir)
{
    File f;
    f.ini = src.flip();
    f.dir = dir.path / "dir";
    f.elsewhere = dir.path;
    fs::create_directory(f.dir);
    f.path = f.dir / src.pick({std::string("config"), std::string("a file.ini"), std::string(".\xc3\xbc")});
    return f;
}

void history(Src &src)
{
    quiet_logger();
    CaseDir dir;
    File f = make_file(src, dir);
    sim::io::reset(src.chance(1, 4) ? 10 : 0);
    std::size_t const steps = 3 + src.length(25);
    unsigned const workers = 1 + static_cast<unsigned>(src.below(2));
    unsigned checked = 0, present = 0, made = 0, dropped = 0;
    if (src.chance(1, 3))
        f.change(src); // a file that is there before the manager

    sim::run(src, [&]() {
        auto tasks = fly::task::TaskManager::create(workers);
        auto runner = fly::task::SequencedTaskRunner::create(tasks);
        auto const type = f.ini ? ConfigFileType::Ini : ConfigFileType::Json;
        std::shared_ptr<ConfigManager> manager = ConfigManager::create(runner, type, f.path);
        if (f.state == File::Directory)
        {
            SIM_CHECK(!manager, "a directory was accepted as a configuration file");
            fs::remove(f.path);
            f.state = File::Absent;
            manager = ConfigManager::create(runner, type, f.path);
        }
        if (!manager)
            SIM_FAIL("the manager could not be created: %s", std::strerror(errno));
        Holder<Alpha> alpha;
        Holder<Other> other;
        Holder<Beta> beta;
        Holder<Gamma> gamma;
        int last_seen = 0; // the version that was read last

        auto create = [&]<typename T>(Holder<T> &holder, bool taken) {
            auto c = manager->create_config<T>();
            sim::Quiet quiet;
            f.text += strf(" created %s;", T::identifier);
            if (taken)
            {
                SIM_CHECK(!c, "a configuration was created under a name that another type has;%s", f.text.c_str());
                return;
            }
            SIM_CHECK(c, "a configuration could not be created;%s", f.text.c_str());
            if (holder.ptr && holder.current)
                SIM_CHECK(holder.ptr == c, "a live configuration was made anew;%s", f.text.c_str());
            else
                SIM_CHECK(holder.ptr != c, "an old manager's configuration was handed out;%s", f.text.c_str());
            holder.ptr = std::move(c);
            holder.current = true;
            ++made;
        };
        auto drop = [&]<typename T>(Holder<T> &holder) {
            f.say(strf("dropped %s", T::identifier));
            holder.ptr.reset();
            holder.current = false;
        };
        auto check = [&]() {
            settle(f);
            f.say("|");
            auto const one = [&](auto &holder, char const *name) {
                if (!holder.ptr || !holder.current)
                    return;
                check_all(f, *holder.ptr, name);
                ++checked;
                present += f.section(name) != nullptr;
            };
            one(alpha, "alpha");
            one(other, "alpha");
            one(beta, "beta");
            one(gamma, Gamma::identifier);
            auto path = manager->create_config<fly::path::PathConfig>();
            SIM_CHECK(path != nullptr, "the configuration of the monitor cannot be had");
            SIM_CHECK(path->poll_interval().count() == f.expected<long long>("path", "poll_interval", 1000), "the poll interval is %lld;%s", static_cast<long long>(path->poll_interval().count()), f.text.c_str());
        };
        for (std::size_t step = 0; step < steps; ++step)
        {
            File::pause(src);
            switch (src.weighted({8, 5, 3, 3, 2, 1, 1, 1}))
            {
                case 0: f.change(src); break;
                case 1:
                    switch (src.below(4))
                    {
                        case 0: create(alpha, other.ptr && other.current); break;
                        case 1: create(other, alpha.ptr && alpha.current); break;
                        case 2: create(beta, false); break;
                        default: create(gamma, false); break;
                    }
                    break;
                case 2:
                    switch (src.below(4))
                    {
                        case 0: drop(alpha); break;
                        case 1: drop(other); break;
                        case 2: drop(beta); break;
                        default: drop(gamma); break;
                    }
                    break;
                case 3: check(); break;
                case 4: // in between
                    if (alpha.ptr && alpha.current)
                    {
                        int const v = alpha.ptr->get<int>("version", 0);
                        sim::Quiet quiet;
                        SIM_CHECK(v == 0 || (v > 1000 && v <= f.versions), "a version that was never written was read: %d;%s", v, f.text.c_str());
                        SIM_CHECK(v == 0 || v >= last_seen, "version %d was read after %d;%s", v, last_seen, f.text.c_str());
                        last_seen = std::max(last_seen, v);
                    }
                    break;
                case 5:
                {
                    std::size_t const live = 1 + (alpha.ptr && alpha.current) + (other.ptr && other.current) + (beta.ptr && beta.current) + (gamma.ptr && gamma.current);
                    auto const n = manager->prune();
                    SIM_CHECK(n == live, "%zu configurations remain, not %zu;%s", n, live, f.text.c_str());
                    break;
                }
                case 6: // another manager
                {
                    f.say("manager dropped");
                    ++dropped;
                    std::weak_ptr<ConfigManager> weak = manager;
                    manager.reset();
                    alpha.current = other.current = beta.current = gamma.current = false;
                    if (src.flip())
                    {
                        // What remains of it stays as it is.
                        bool const gone = sim::wait_until([&weak]() { return weak.expired(); }, 600ll * 1000 * sim::ms);
                        SIM_CHECK(gone, "a manager that was dropped stays;%s", f.text.c_str());
                        int const v = alpha.ptr ? alpha.ptr->get<int>("version", 0) : 0;
                        f.change(src);
                        sim::sleep(4000 * sim::ms);
                        SIM_CHECK(!alpha.ptr || alpha.ptr->get<int>("version", 0) == v, "a configuration changed after its manager was dropped;%s", f.text.c_str());
                    }
                    if (f.state == File::Directory)
                    {
                        fs::remove(f.path);
                        f.state = File::Absent;
                    }
                    manager = ConfigManager::create(runner, type, f.path);
                    if (!manager)
                        SIM_FAIL("the manager could not be created again: %s", std::strerror(errno));
                    f.say("manager made");
                    break;
                }
                default: // what cannot be managed
                {
                    fs::path const path = src.flip() ? f.dir : f.dir / "none" / "file";
                    SIM_CHECK(!ConfigManager::create(runner, type, path), "a manager of '%s' was created", path.c_str());
                    SIM_CHECK(!ConfigManager::create(runner, static_cast<ConfigFileType>(7), f.path), "a manager of an unknown type was created");
                    break;
                }
            }
        }
        check();
        manager.reset();
        tasks->stop();
    });
    src.note(strf("%s:%s", f.ini ? "ini" : "json", f.text.c_str()));
    src.label(f.ini ? "ini" : "json");
    src.label(sim::world().pct ? "priority schedule" : "random walk schedule");
    if (dropped)
        src.label("managers were dropped and made again");
    if (present)
        src.label("values of the file were read");
    if (checked && present && f.changes >= 2 && made)
        src.nontrivial();
}

void threads(Src &src)
{
    quiet_logger();
    CaseDir dir;
    File f = make_file(src, dir);
    f.begun.reserve(100);
    sim::io::reset(src.chance(1, 4) ? 10 : 0);
    std::size_t const n_threads = 1 + src.below(3);
    std::size_t const changes = 1 + src.below(10);
    bool const stay = src.chance(2, 3); // until everything has settled
    unsigned const workers = 1 + static_cast<unsigned>(src.below(2));
    struct Step
    {
        int what; // read, create, drop, prune
        unsigned gap;
    };
    std::vector<std::vector<Step>> plan(n_threads);
    for (auto &p : plan)
    {
        std::size_t const n = 1 + src.below(8);
        for (std::size_t i = 0; i < n; ++i)
            p.push_back({static_cast<int>(src.weighted({6, 3, 2, 1})), static_cast<unsigned>(src.below(6))});
    }
    std::set<int> seen;

    sim::run(src, [&]() {
        auto tasks = fly::task::TaskManager::create(workers);
        auto runner = fly::task::SequencedTaskRunner::create(tasks);
        auto manager = ConfigManager::create(runner, f.ini ? ConfigFileType::Ini : ConfigFileType::Json, f.path);
        if (!manager)
            SIM_FAIL("the manager could not be created: %s", std::strerror(errno));
        auto shared = manager->create_config<Alpha>(); // which is held all the time
        std::vector<std::thread> all;
        for (std::size_t t = 0; t < n_threads; ++t)
        {
            all.emplace_back([&, t, mine = std::weak_ptr<ConfigManager>(manager)]() {
                int last = 0;
                std::shared_ptr<Beta> beta;
                for (auto const &step : plan[t])
                {
                    for (unsigned i = 0; i < step.gap; ++i)
                        sim::point();
                    auto const m = mine.lock();
                    switch (step.what)
                    {
                        case 0:
                        {
                            int const v = shared->get<int>("version", 0);
                            sim::Quiet quiet;
                            SIM_CHECK(v == 0 || (v > 1000 && v <= f.versions), "a version that was never written was read: %d;%s", v, f.text.c_str());
                            SIM_CHECK(v == 0 || v >= last, "version %d was read after %d;%s", v, last, f.text.c_str());
                            last = std::max(last, v);
                            seen.insert(v);
                            break;
                        }
                        case 1:
                            if (m)
                            {
                                auto const c = m->create_config<Alpha>();
                                SIM_CHECK(c == shared, "a live configuration was made anew;%s", f.text.c_str());
                                beta = m->create_config<Beta>();
                                SIM_CHECK(beta != nullptr, "a configuration could not be created;%s", f.text.c_str());
                            }
                            break;
                        case 2: beta.reset(); break;
                        default:
                            if (m)
                            {
                                auto const n = m->prune();
                                SIM_CHECK(n >= 2 && n <= 3, "%zu configurations remain;%s", n, f.text.c_str());
                            }
                            break;
                    }
                }
            });
        }
        Src &s = *sim::world().src;
        for (std::size_t i = 0; i < changes; ++i)
        {
            File::pause(s);
            f.change(s);
        }
        if (stay)
        {
            settle(f);
            check_all(f, *shared, "alpha");
        }
        manager.reset();
        for (auto &t : all)
            t.join();
        tasks->stop();
    });
    src.note(strf("%s:%s", f.ini ? "ini" : "json", f.text.c_str()));
    src.label(stay ? "the manager stays" : "the manager is dropped meanwhile");
    if (seen.size() > 1)
        src.label("several versions were read");
    if (changes >= 2)
        src.nontrivial();
}

} // namespace

int main(int argc, char **argv)
{
    return pbt::main(
        argc,
        argv,
        {"G01",
         "the file was changed at least twice, and values that it has were read of a configuration once it was stable; or it was changed at least twice while other threads used the configurations",
         {
             {"history", history, 3000, 100000},
             {"threads", threads, 3000, 100000},
         },
         {},
         {"the directory of the file stays where it is", "poll intervals are positive", "conversions of JSON values are those J03 decides"}});
}
