// G02: the settings of every component are the file's values, or their defaults.
//
// A JSON or INI file with sections for the library's components (and others, and damaged ones) in
// any order, values of every kind, unknown and misspelt names, read by configuration managers for
// configurations as they are and with other defaults. Oracle: a table of the settings (section, name, range,
// unit, default) and of what a value means for a whole number or a truth value.
#include "fly/coders/coder_config.hpp"
#include "fly/config/config_manager.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/net/network_config.hpp"
#include "fly/path/path_config.hpp"
#include "fly/system/system_config.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"

#include "pbt.hpp"
#include "quiet.hpp"
#include "scratch.hpp"

#include <array>
#include <optional>

using namespace pbt;
using fly::config::ConfigFileType;
using fly::config::ConfigManager;

namespace {

using Wide = __int128;

struct Setting
{
    char const *section, *name;
    bool truth;
    Wide least, most;
    Wide standard; // the default
    Wide unit;
};
constexpr Wide s_i64 = std::numeric_limits<std::int64_t>::max(), s_u64 = std::numeric_limits<std::uint64_t>::max();
Setting const s_settings[] = {
    {"network", "socket_io_wait_time", false, -s_i64 - 1, s_i64, 10000, 1},
    {"network", "packet_size", false, 0, s_u64, 4096, 1},
    {"path", "poll_interval", false, -s_i64 - 1, s_i64, 1000, 1},
    {"system", "poll_interval", false, -s_i64 - 1, s_i64, 1000, 1},
    {"logger", "compress_log_files", true, 0, 1, 1, 1},
    {"logger", "max_log_file_size", false, 0, s_u64, 20 << 20, 1},
    {"logger", "max_message_size", false, 0, 0xffffffffu, 256, 1},
    {"coder", "encoder_chunk_size_kb", false, 0, 0xffff, 256, 1024},
    {"coder", "encoder_max_code_length", false, 0, 0xff, 11, 1},
};
constexpr std::size_t s_count = std::size(s_settings);
using Values = std::array<Wide, s_count>;

Values standard()
{
    Values v {};
    for (std::size_t i = 0; i < s_count; ++i)
        v[i] = s_settings[i].standard;
    return v;
}

// Configurations whose defaults are the case's.
thread_local Values t_defaults;
struct OtherNetwork : fly::net::NetworkConfig
{
    OtherNetwork()
    {
        m_default_socket_io_wait_time = static_cast<std::int64_t>(t_defaults[0]);
        m_default_packet_size = static_cast<std::size_t>(t_defaults[1]);
    }
};
struct OtherPath : fly::path::PathConfig
{
    OtherPath() { m_default_poll_interval = static_cast<std::int64_t>(t_defaults[2]); }
};
struct OtherSystem : fly::system::SystemConfig
{
    OtherSystem() { m_default_poll_interval = static_cast<std::int64_t>(t_defaults[3]); }
};
struct OtherLogger : fly::logger::LoggerConfig
{
    OtherLogger()
    {
        m_default_compress_log_files = t_defaults[4] != 0;
        m_default_max_log_file_size = static_cast<std::uintmax_t>(t_defaults[5]);
        m_default_max_message_size = static_cast<std::uint32_t>(t_defaults[6]);
    }
};
struct OtherCoder : fly::coders::CoderConfig
{
    OtherCoder()
    {
        m_default_huffman_encoder_chunk_size_kb = static_cast<std::uint16_t>(t_defaults[7]);
        m_default_huffman_encoder_max_code_length = static_cast<fly::coders::length_type>(t_defaults[8]);
    }
};

struct Configs
{
    std::shared_ptr<fly::net::NetworkConfig> network;
    std::shared_ptr<fly::path::PathConfig> path;
    std::shared_ptr<fly::system::SystemConfig> system;
    std::shared_ptr<fly::logger::LoggerConfig> logger;
    std::shared_ptr<fly::coders::CoderConfig> coder;

    Values read() const
    {
        return {network->socket_io_wait_time() / std::chrono::microseconds(1), network->packet_size(), path->poll_interval() / std::chrono::milliseconds(1), system->poll_interval() / std::chrono::milliseconds(1),
            logger->compress_log_files(), logger->max_log_file_size(), logger->max_message_size(), coder->huffman_encoder_chunk_size(), coder->huffman_encoder_max_code_length()};
    }
};

// ---- contents ----

struct Value
{
    enum Kind { Whole, Text, Real, Truth, Null, List, Map } kind {Whole};
    Wide whole {0};
    std::string text;
    bool truth {false};
    double real {0};
};

std::string text_of(Wide v)
{
    if (v < 0)
        return "-" + text_of(-v);
    std::string s;
    do
        s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
    while ((v /= 10) > 0);
    return s;
}

Wide draw_whole(Src &src, Setting const &s)
{
    switch (src.below(4))
    {
        case 0: return std::clamp<Wide>(static_cast<Wide>(src.below(100000)), s.least, s.most);
        case 1: return s.least + static_cast<Wide>(src.below(3));
        case 2: return s.most - static_cast<Wide>(src.below(2));
        default:
        {
            Wide const v = static_cast<Wide>(src.interesting());
            return v < s.least || v > s.most ? s.standard : v;
        }
    }
}

Value draw_value(Src &src, Setting const &s, bool ini)
{
    Value v;
    v.kind = ini ? Value::Text : static_cast<Value::Kind>(src.weighted({8, 3, 1, 2, 1, 1, 1}));
    v.whole = draw_whole(src, s);
    if (s.truth)
        v.whole = src.pick({Wide(0), Wide(1), Wide(77), Wide(-1)});
    v.truth = src.flip();
    v.real = src.pick({0.0, 0.5, 1.0, 7.0, 250.75, 100.0});
    if (src.chance(2, 3))
        v.text = text_of(v.whole);
    else if (src.flip() && !s.truth)
        v.text = text_of(src.flip() ? s.most + 1 + static_cast<Wide>(src.below(2)) : s.least - 1);
    else
        v.text = src.pick({std::string("x"), std::string("12x"), std::string("0x10"), std::string("7 7"), std::string("true"), std::string("1.5"), std::string("- 1")});
    return v;
}

std::string render(Value const &v)
{
    switch (v.kind)
    {
        case Value::Whole: return text_of(v.whole);
        case Value::Text: return "\"" + v.text + "\"";
        case Value::Real: return strf("%.2f", v.real);
        case Value::Truth: return v.truth ? "true" : "false";
        case Value::Null: return "null";
        case Value::List: return v.truth ? "[1]" : "[]";
        default: return v.truth ? "{\"poll_interval\": 5}" : "{}";
    }
}

// What the value means, or nothing where the default is in force.
std::optional<Wide> meaning(Value const &v, Setting const &s)
{
    if (s.truth)
    {
        switch (v.kind)
        {
            case Value::Whole: return v.whole != 0;
            case Value::Text: return !v.text.empty();
            case Value::Real: return v.real != 0;
            case Value::Null: return 0;
            default: return v.truth;
        }
    }
    switch (v.kind)
    {
        case Value::Whole: return v.whole;
        case Value::Real: return static_cast<Wide>(v.real);
        case Value::Text:
        {
            Wide n = 0;
            std::size_t i = 0;
            bool const negative = !v.text.empty() && v.text[0] == '-';
            if (negative)
                ++i;
            if (i == v.text.size())
                return {};
            for (; i < v.text.size(); ++i)
            {
                if (v.text[i] < '0' || v.text[i] > '9')
                    return {};
                n = n * 10 + (v.text[i] - '0');
            }
            n = negative ? -n : n;
            if (n < s.least || n > s.most)
                return {};
            return n;
        }
        default: return {};
    }
}

struct Content
{
    std::string text;
    std::array<std::optional<Value>, s_count> values;
    bool good {true};
};

Content draw_content(Src &src, bool ini)
{
    Content c;
    std::vector<std::string> sections = {"network", "path", "system", "logger", "coder", "other"};
    for (std::size_t i = sections.size(); i > 1; --i)
        std::swap(sections[i - 1], sections[src.below(i)]);
    c.text = ini ? "" : "{";
    bool first_section = true;
    for (auto const &section : sections)
    {
        if (src.chance(1, 4))
            continue;
        std::vector<std::string> entries;
        auto const entry = [&](std::string const &name, Value const &v) { entries.push_back(ini ? name + (src.flip() ? "=" : " = ") + (src.flip() ? "\"" + v.text + "\"" : v.text) : "\"" + name + "\": " + render(v)); };
        bool const object = ini || !src.chance(1, 12);
        for (std::size_t i = 0; i < s_count; ++i)
        {
            Setting const &s = s_settings[i];
            // under its own section; sometimes elsewhere, where it means nothing
            bool const own = section == s.section;
            bool const doubled = std::string(s.name) == "poll_interval" && (section == "path" || section == "system");
            if (own ? !src.chance(3, 4) : doubled || !src.chance(1, 12))
                continue;
            Value const v = draw_value(src, s, ini);
            entry(s.name, v);
            if (own && object)
                c.values[i] = v;
        }
        if (src.chance(1, 3))
        {
            Setting const &s = s_settings[src.below(s_count)];
            std::string name = s.name;
            if (src.flip())
                name[0] = static_cast<char>(std::toupper(name[0]));
            else
                name += src.pick({std::string("_"), std::string("_kb"), std::string("s"), std::string("2")});
            entry(name, draw_value(src, s, ini));
        }
        for (std::size_t i = entries.size(); i > 1; --i)
            std::swap(entries[i - 1], entries[src.below(i)]);
        std::string body;
        for (auto const &e : entries)
            body += (ini || body.empty() ? "" : ", ") + e + (ini ? "\n" : "");
        if (ini)
            c.text += "[" + section + "]\n" + body;
        else
            c.text += (first_section ? "\"" : ",\n\"") + section + "\": " + (object ? "{" + body + "}" : src.pick({std::string("[]"), std::string("3"), std::string("null"), std::string("\"packet_size\"")}));
        first_section = false;
    }
    c.text += ini ? "" : "}";
    if (src.chance(1, 12))
    {
        c.good = false;
        c.text += ini ? "\n]" : "}";
        c.values = {};
    }
    return c;
}

void compare(Configs const &configs, Content const &content, Values const &defaults, std::string const &history)
{
    Values const seen = configs.read();
    for (std::size_t i = 0; i < s_count; ++i)
    {
        Setting const &s = s_settings[i];
        auto const value = content.values[i] ? meaning(*content.values[i], s) : std::nullopt;
        Wide const want = value.value_or(defaults[i]) * s.unit;
        PBT_CHECK(seen[i] == want, "%s.%s is %s instead of %s: %s", s.section, s.name, text_of(seen[i]).c_str(), text_of(want).c_str(), history.c_str());
    }
}

Values draw_defaults(Src &src, bool other)
{
    Values v = standard();
    if (other)
        for (std::size_t i = 0; i < s_count; ++i)
            v[i] = s_settings[i].truth ? static_cast<Wide>(src.flip()) : draw_whole(src, s_settings[i]);
    t_defaults = v;
    return v;
}

void files(Src &src)
{
    static bool const quiet = (quiet_logger(), true);
    (void)quiet;
    bool const ini = src.flip();
    bool const other = src.chance(1, 3);
    Values const defaults = draw_defaults(src, other);
    Content const c = draw_content(src, ini);
    CaseDir dir;
    auto const path = dir.path / (ini ? "settings.ini" : "settings.json");
    bool const there = !src.chance(1, 10);
    if (there)
        write_file(path, c.text);

    // Without threads: nothing is polled, the file is read when the manager is created.
    auto tasks = fly::task::TaskManager::create(1);
    tasks->stop();
    auto runner = fly::task::SequencedTaskRunner::create(tasks);
    auto manager = ConfigManager::create(runner, ini ? ConfigFileType::Ini : ConfigFileType::Json, path);
    PBT_CHECK(manager != nullptr, "no manager for %s", path.c_str());
    bool const o = other;
    Configs k;
    {
        k.network = o ? manager->create_config<OtherNetwork>() : manager->create_config<fly::net::NetworkConfig>();
        k.path = manager->create_config<fly::path::PathConfig>(); // the manager's own monitor has one
        k.system = o ? manager->create_config<OtherSystem>() : manager->create_config<fly::system::SystemConfig>();
        k.logger = o ? manager->create_config<OtherLogger>() : manager->create_config<fly::logger::LoggerConfig>();
        k.coder = o ? manager->create_config<OtherCoder>() : manager->create_config<fly::coders::CoderConfig>();
    }
    Configs const &configs = k;
    for (void const *p : {static_cast<void const *>(configs.network.get()), static_cast<void const *>(configs.path.get()), static_cast<void const *>(configs.system.get()), static_cast<void const *>(configs.logger.get()), static_cast<void const *>(configs.coder.get())})
        PBT_CHECK(p != nullptr, "a configuration could not be created");
    Values mine = defaults;
    mine[2] = s_settings[2].standard;
    std::string const history = (other ? "other defaults; " : "") + (there ? c.text : "no file");
    compare(configs, there ? c : Content {}, mine, history);
    src.note(history);
    for (auto const &v : c.values)
        if (there && v)
            return src.nontrivial();
}

} // namespace

int main(int argc, char **argv)
{
    Options o;
    o.property = "G02";
    o.rule = "JSON and INI contents with 0-6 sections in any order, settings under their own and other sections, unknown names, values of every kind in and out of range, damaged documents; configurations with the library's and with other defaults. "
             "Non-trivial: the file parses and a known setting is in its section. Oracle: table of settings.";
    o.targets = {{"files", files, 12000, 400000}};
    return pbt::main(argc, argv, o);
}
