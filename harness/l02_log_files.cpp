// L02: log files contain every record exactly once, across rotation and compression.
//
// "files": histories of statements to synchronous file loggers, one after another in the same
// directory, for generated size limits, compression settings and encoder configurations; the whole
// directory is read back (decoding the compressed files) along the way and at the end. "faults":
// the same with a disk that is full from some point on (a file size limit of the process), or a
// directory that is moved away. "threads": asynchronous file loggers in the simulation of sim.hpp.
// Oracle: the statements made; every file is parsed record by record against them.
#include "sim.hpp"

#include "huffman_common.hpp"
#include "scratch.hpp"

#include "fly/logger/log.hpp"
#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"

#include <csignal>
#include <sys/resource.h>
#include <thread>

using namespace pbt;
using fly::logger::Level;
using fly::logger::Logger;
namespace fs = std::filesystem;

namespace {

struct Config : fly::logger::LoggerConfig
{
    Config(std::uintmax_t file_size, std::uint32_t message_size, bool compress)
    {
        m_default_max_log_file_size = file_size;
        m_default_max_message_size = message_size;
        m_default_compress_log_files = compress;
    }
};

struct Record
{
    Level level {Level::Debug};
    bool traced {false};
    std::string file, function;
    std::uint32_t line {0};
    std::string message; // as made
    double earliest {0}, latest {0};
};

std::string content(Src &src, std::size_t most)
{
    std::size_t const n = src.chance(1, 4) ? src.below(4) : src.below(most + 1);
    std::string s;
    switch (src.below(4))
    {
        case 0:
            for (std::size_t i = 0; i < n; ++i)
                s += static_cast<char>('a' + i % 26);
            break;
        case 1: s.assign(n, static_cast<char>(src.byte())); break;
        case 2: // the separators of the format
            for (std::size_t i = 0; i < n; ++i)
                s += "\x1f\x1e\n\0 1"[i % 6];
            break;
        default:
        {
            std::uint64_t x = src.u64() | 1;
            for (std::size_t i = 0; i < n; ++i)
            {
                x = x * 6364136223846793005ull + 1442695040888963407ull;
                s += static_cast<char>(x >> 56);
            }
        }
    }
    return s;
}

Record make_record(Src &src, std::size_t most)
{
    static char const *const files[] = {"file.cpp", "a/b.h", "", "x\x1e"};
    static char const *const functions[] = {"f", "", "operator()"};
    Record r;
    r.level = static_cast<Level>(src.below(4));
    if ((r.traced = src.flip()))
    {
        r.file = files[src.weighted({4, 4, 1, 1})];
        r.function = functions[src.weighted({4, 1, 4})];
        r.line = static_cast<std::uint32_t>(src.below(5000));
    }
    r.message = content(src, most);
    return r;
}

void log(Logger &logger, Record &r)
{
    // The logger keeps views of the position only as long as it needs: these outlive it.
    fly::logger::Trace trace;
    if (r.traced)
        trace = {r.file, r.function, r.line};
    switch (r.level)
    {
        case Level::Debug: logger.debug(std::move(trace), "{}", r.message); break;
        case Level::Info: logger.info(std::move(trace), "{}", r.message); break;
        case Level::Warn: logger.warn(std::move(trace), "{}", r.message); break;
        default: logger.error(std::move(trace), "{}", r.message); break;
    }
}

// ---- reading back ----

struct LogFile
{
    unsigned long index {0};
    bool compressed {false};
    std::string text;
    fs::path path;
};

// The log files in the directory that are not among the known ones, in the order of creation.
std::vector<LogFile> read_back(fs::path const &dir, std::set<std::string> const &known, std::string const &where)
{
    std::map<unsigned long, LogFile> files;
    std::set<std::string> names;
    for (auto const &entry : fs::directory_iterator(dir))
        names.insert(entry.path().filename().string());
    for (auto const &name : names)
    {
        if (known.count(name))
            continue;
        LogFile f;
        char *end = nullptr;
        PBT_CHECK(name.rfind("Log_", 0) == 0, "%s: there is a file %s", where.c_str(), show(name).c_str());
        f.index = std::strtoul(name.c_str() + 4, &end, 10);
        PBT_CHECK(f.index > 0 && *end == '_', "%s: there is a file %s", where.c_str(), show(name).c_str());
        f.path = dir / name;
        f.compressed = name.size() > 4 && name.substr(name.size() - 4) == ".enc";
        PBT_CHECK(f.compressed || (name.size() > 4 && name.substr(name.size() - 4) == ".log"), "%s: there is a file %s", where.c_str(), show(name).c_str());
        if (f.compressed)
        {
            std::string const plain = name.substr(0, name.size() - 4);
            if (names.count(plain))
                continue; // compressing it failed, the uncompressed file counts
            std::ifstream in(f.path, std::ios::binary);
            fly::coders::HuffmanDecoder decoder;
            std::string const coded = read_file(f.path);
            PBT_CHECK(decoder.decode_string(coded, f.text), "%s: the compressed file %s cannot be decoded (%zu bytes)", where.c_str(), name.c_str(), coded.size());
        }
        else
            f.text = read_file(f.path);
        PBT_CHECK(files.emplace(f.index, f).second, "%s: there are two files number %lu", where.c_str(), f.index);
    }
    std::vector<LogFile> result;
    unsigned long expected = 1;
    for (auto &[index, f] : files)
    {
        PBT_CHECK(index == expected++, "%s: there is no file number %lu", where.c_str(), expected - 1);
        result.push_back(std::move(f));
    }
    return result;
}

// The length of the record at the given place if it is record number n, with the given content.
// 0 if it is not; the whole rest if the text ends within it and that is allowed.
std::size_t match(std::string const &text, std::size_t at, std::size_t n, Record const &r, std::uint32_t limit, std::string &why, bool partial = false)
{
    std::string const head = std::to_string(n) + '\x1f' + static_cast<char>(r.level) + '\x1f';
    std::string tail = "\x1f";
    if (r.traced && !r.file.empty() && !r.function.empty())
        tail += r.file + ":" + r.function + ":" + std::to_string(r.line);
    tail += '\x1f' + r.message.substr(0, limit) + '\x1e';
    std::string const rest = text.substr(at, head.size() + tail.size() + 64);
    if (rest.compare(0, head.size(), head) != 0)
    {
        if (partial && head.compare(0, rest.size(), rest) == 0)
            return rest.size();
        why = "does not begin with number and level";
        return 0;
    }
    char *end = nullptr;
    double const time = std::strtod(rest.c_str() + head.size(), &end);
    std::size_t const number = static_cast<std::size_t>(end - (rest.c_str() + head.size()));
    if (partial && head.size() + number == rest.size())
        return rest.size();
    double const slack = 1e-5 * std::max(1.0, std::abs(time)); // six digits are written
    if (number == 0 || time < r.earliest - slack || time > r.latest + slack)
    {
        why = strf("has the time %f, not one from %f to %f", time, r.earliest, r.latest);
        return 0;
    }
    std::string const have = rest.substr(head.size() + number, tail.size());
    if (have != tail)
    {
        if (partial && tail.compare(0, have.size(), have) == 0)
            return rest.size();
        why = "differs";
        return 0;
    }
    return head.size() + number + tail.size();
}

struct Settings
{
    std::uintmax_t file_size {0};
    std::uint32_t message_size {256};
    bool compress {false};
    unsigned max_length {11}, chunk_kb {256};
    std::string show() const { return strf("limit %ju, messages %u, %s", file_size, message_size, compress ? strf("compressed with codes of %u bits in chunks of %u KB", max_length, chunk_kb).c_str() : "not compressed"); }
};

Settings make_settings(Src &src)
{
    Settings s;
    s.file_size = src.pick({std::uint64_t(300), std::uint64_t(0), std::uint64_t(40), std::uint64_t(1000), std::uint64_t(5000), std::uint64_t(1) << 40});
    if (src.flip())
        s.file_size = src.below(1500);
    s.message_size = src.chance(1, 2) ? 256 : static_cast<std::uint32_t>(src.pick({0, 1, 20, 2000, 100000}));
    s.compress = src.flip();
    if (src.chance(1, 3))
    {
        s.max_length = 1 + static_cast<unsigned>(src.below(15));
        s.chunk_kb = 1 + static_cast<unsigned>(src.below(4));
    }
    return s;
}

// Checks all files of a logger against the records; the number of files is returned.
std::size_t check(std::vector<LogFile> const &files, std::vector<Record> const &records, Settings const &s, std::string const &where)
{
    std::size_t n = 0;
    for (std::size_t i = 0; i < files.size(); ++i)
    {
        auto const &f = files[i];
        std::size_t at = 0, last = 0;
        while (at < f.text.size())
        {
            std::string why = "is one too many";
            last = n < records.size() ? match(f.text, at, n, records[n], s.message_size, why) : 0;
            PBT_CHECK(last != 0, "%s: record %zu of %zu, in file %lu (%s) at %zu, %s: %s", where.c_str(), n, records.size(), f.index, s.show().c_str(), at, why.c_str(), show(f.text.substr(at, 80)).c_str());
            at += last;
            ++n;
        }
        if (i + 1 < files.size())
        {
            PBT_CHECK(f.text.size() > s.file_size, "%s: file %lu was closed with %zu bytes (%s)", where.c_str(), f.index, f.text.size(), s.show().c_str());
            PBT_CHECK(f.text.size() - last <= s.file_size, "%s: file %lu was written to beyond the limit: %zu bytes, %zu in the last record (%s)", where.c_str(), f.index, f.text.size(), last, s.show().c_str());
            PBT_CHECK(s.compress || !f.compressed, "%s: file %lu is compressed (%s)", where.c_str(), f.index, s.show().c_str());
        }
        else
            PBT_CHECK(f.text.size() <= s.file_size && !f.compressed, "%s: the last file has %zu bytes%s (%s)", where.c_str(), f.text.size(), f.compressed ? " and is compressed" : "", s.show().c_str());
    }
    PBT_CHECK(n == records.size(), "%s: only %zu of %zu records are in the files (%s)", where.c_str(), n, records.size(), s.show().c_str());
    return files.size();
}

using Clock = std::chrono::steady_clock;
double to_ms(Clock::duration d)
{
    return std::chrono::duration<double, std::milli>(d).count();
}

void files(Src &src)
{
    CaseDir dir;
    std::set<std::string> known;
    std::size_t const loggers = 1 + src.below(3);
    bool rotated = false, compressed = false, failed_to_compress = false;
    std::size_t total = 0;
    for (std::size_t l = 0; l < loggers; ++l)
    {
        Settings s = make_settings(src);
        bool const many = src.chance(1, 100); // files: more than some counters can count
        if (many)
        {
            s.file_size = src.below(30);
            s.message_size = std::min(s.message_size, 100u);
            s.compress &= src.chance(1, 4);
        }
        auto config = std::make_shared<Config>(s.file_size, s.message_size, s.compress);
        auto coder = std::make_shared<HuffmanConfig>(s.chunk_kb, s.max_length);
        std::string const where = strf("logger %zu", l);
        auto const before = Clock::now();
        auto logger = fly::logger::create_file_logger("files", config, coder, dir.path);
        auto const created = Clock::now();
        PBT_CHECK(logger != nullptr, "%s: a file logger cannot be created", where.c_str());
        std::size_t const n = many ? 200 + src.below(200) : src.length(40);
        std::size_t const most = many ? 5 : src.pick({60, 5, 300, 3000});
        std::vector<Record> records;
        records.reserve(n);
        for (std::size_t i = 0; i < n; ++i)
        {
            records.push_back(make_record(src, most));
            auto &r = records.back();
            auto const from = Clock::now();
            log(*logger, r);
            r.earliest = to_ms(from - created);
            r.latest = to_ms(Clock::now() - before);
            if (src.chance(1, many ? 100 : 12))
                check(read_back(dir.path, known, where), records, s, where + " (still in use)");
        }
        logger.reset();
        auto const all = read_back(dir.path, known, where);
        check(all, records, s, where);
        total += n;
        rotated |= all.size() > 1;
        for (std::size_t i = 0; i + 1 < all.size(); ++i)
        {
            compressed |= all[i].compressed;
            failed_to_compress |= s.compress && !all[i].compressed;
            // Only codes that are too short for the file's symbols are a reason.
            if (s.compress && !all[i].compressed)
            {
                std::set<char> const symbols(all[i].text.begin(), all[i].text.end());
                PBT_CHECK(symbols.size() > (std::size_t(1) << s.max_length), "%s: file %lu is not compressed (%s, %zu symbols)", where.c_str(), all[i].index, s.show().c_str(), symbols.size());
            }
        }
        for (auto const &e : fs::directory_iterator(dir.path))
            known.insert(e.path().filename().string());
        src.note(strf("%s; %zu records in %zu files", s.show().c_str(), n, all.size()));
    }
    if (compressed)
        src.label("compressed files");
    if (failed_to_compress)
        src.label("files with more symbols than codes");
    if (rotated)
        src.label("several files");
    if (rotated)
        src.nontrivial();
}

struct FileLimit
{
    FileLimit()
    {
        std::signal(SIGXFSZ, SIG_IGN);
        getrlimit(RLIMIT_FSIZE, &old);
    }
    ~FileLimit() { setrlimit(RLIMIT_FSIZE, &old); }
    void set(rlim_t bytes)
    {
        rlimit now = old;
        now.rlim_cur = bytes;
        setrlimit(RLIMIT_FSIZE, &now);
    }
    rlimit old {};
};

void faults(Src &src)
{
    CaseDir dir;
    Settings const s = make_settings(src);
    auto config = std::make_shared<Config>(s.file_size, s.message_size, s.compress);
    auto coder = std::make_shared<HuffmanConfig>(s.chunk_kb, s.max_length);
    fs::path place = dir.path / "logs";
    int const kind = static_cast<int>(src.weighted({4, 3, 1, 1}));
    if (kind == 2 || kind == 3)
    {
        // No directory, or something else of that name.
        if (kind == 3)
            write_file(place, "a file");
        auto logger = fly::logger::create_file_logger("faults", config, coder, place);
        PBT_CHECK(logger == nullptr, "a file logger was created in %s", kind == 2 ? "a directory that does not exist" : "a file");
        PBT_CHECK(Logger::get("faults") == nullptr, "a file logger that cannot log is there");
        PBT_CHECK(kind == 3 ? read_file(place) == "a file" : !fs::exists(place), "creating a file logger where none can be changed files");
        src.label("no directory");
        src.nontrivial();
        return;
    }
    fs::create_directory(place);
    auto const before = Clock::now();
    auto logger = fly::logger::create_file_logger("faults", config, coder, place);
    auto const created = Clock::now();
    PBT_CHECK(logger != nullptr, "a file logger cannot be created");
    std::size_t const n = 1 + src.length(25);
    std::size_t const fault = src.below(n);
    std::size_t const lasts = 1 + src.below(4); // for so many records
    std::size_t const most = src.pick({60, 5, 300});
    rlim_t const room = src.below(src.pick({40, 300, 3000}));
    std::vector<Record> records;
    records.reserve(n);
    {
        FileLimit limit;
        for (std::size_t i = 0; i < n; ++i)
        {
            if (i == fault && kind == 1)
            {
                fs::path const moved = dir.path / "moved";
                fs::rename(place, moved);
                place = moved;
            }
            if (kind == 0 && i == fault)
                limit.set(room);
            if (kind == 0 && i == fault + lasts)
                limit.set(limit.old.rlim_cur);
            records.push_back(make_record(src, most));
            auto &r = records.back();
            auto const from = Clock::now();
            log(*logger, r);
            r.earliest = to_ms(from - created);
            r.latest = to_ms(Clock::now() - before);
        }
        logger.reset();
    }
    // Everything before the fault is there, then at most a part of the record that met it (which the
    // stream may write again when it is closed); nothing is missing in between.
    auto const all = read_back(place, {}, "after the fault");
    std::size_t k = 0;
    bool cut = false;
    for (auto const &f : all)
    {
        for (std::size_t at = 0; at < f.text.size();)
        {
            std::string why = "is one too many";
            std::size_t length = 0;
            if (k < n && !cut)
                length = match(f.text, at, k, records[k], s.message_size, why);
            for (std::size_t part = f.text.size() - at; length == 0 && part > 0 && k < n && k >= fault && &f == &all.back(); --part)
            {
                bool const whole = part == f.text.size() - at;
                if (match(f.text.substr(at, part), 0, k, records[k], s.message_size, why, true) != part)
                    continue;
                std::size_t const again = match(f.text, at + part, k, records[k], s.message_size, why, true);
                if (whole || at + part + again == f.text.size())
                {
                    cut = true;
                    length = f.text.size() - at;
                }
            }
            PBT_CHECK(length != 0, "record %zu of %zu (fault at %zu), in file %lu of %zu (%s) at %zu, %s: %s", k, n, fault, f.index, all.size(), s.show().c_str(), at, why.c_str(), show(f.text.substr(at, 80)).c_str());
            at += length;
            ++k;
        }
    }
    std::size_t const there = cut ? k - 1 : k;
    PBT_CHECK(there >= fault, "only %zu records are there, but nothing was wrong before record %zu (%s)", there, fault, s.show().c_str());
    if (kind == 1)
        PBT_CHECK(!fs::exists(dir.path / "logs"), "the log directory came back");
    src.note(strf("%s: %s at record %zu of %zu, %zu are there%s", s.show().c_str(), kind ? "directory moved" : strf("files of %ju bytes", static_cast<std::uintmax_t>(room)).c_str(), fault, n, there, cut ? " and part of another" : ""));
    src.label(kind ? "directory moved away" : "disk full");
    if (there < n)
    {
        src.label("statements were lost to the fault");
        src.nontrivial();
    }
    if (cut)
        src.label("a record was cut");
}

void threads(Src &src)
{
    Logger::get_default_logger();
    CaseDir dir;
    Settings s = make_settings(src);
    s.message_size = std::max(s.message_size, 20u);
    auto config = std::make_shared<Config>(s.file_size, s.message_size, s.compress);
    auto coder = std::make_shared<HuffmanConfig>(s.chunk_kb, s.max_length);
    unsigned const workers = 1 + static_cast<unsigned>(src.below(3));
    std::size_t const posters = 1 + src.below(3);
    std::vector<std::vector<Record>> plan(posters);
    std::size_t total = 0;
    for (std::size_t t = 0; t < posters; ++t)
    {
        std::size_t const n = 1 + src.below(6);
        for (std::size_t i = 0; i < n; ++i)
        {
            plan[t].push_back(make_record(src, 80));
            plan[t].back().message = strf("<%zu/%zu>", t, i) + plan[t].back().message;
            ++total;
        }
    }
    sim::run(src, [&]() {
        auto manager = fly::task::TaskManager::create(workers);
        auto runner = fly::task::SequencedTaskRunner::create(manager);
        auto const before = Clock::now();
        auto logger = fly::logger::create_file_logger("threads", runner, config, coder, dir.path);
        auto const created = Clock::now();
        SIM_CHECK(logger != nullptr, "a file logger cannot be created");
        auto body = [&](std::size_t t) {
            for (auto &r : plan[t])
            {
                auto const from = Clock::now();
                log(*logger, r);
                auto const to = Clock::now();
                sim::Quiet quiet;
                r.earliest = to_ms(from - created);
                r.latest = to_ms(to - before);
            }
        };
        std::vector<std::thread> all;
        for (std::size_t t = 1; t < posters; ++t)
            all.emplace_back(body, t);
        body(0);
        for (auto &t : all)
            t.join();
        std::atomic<bool> done {false};
        runner->post_task(FROM_HERE, [&done]() { done = true; });
        SIM_CHECK(sim::wait_until([&]() { return done.load(); }, 300ll * 1000 * sim::ms), "a task behind the statements never ran");
        logger.reset();
        manager->stop();
    });
    auto const all = read_back(dir.path, {}, "threads");
    // The order of the records follows from the files; each thread's records must be in order.
    std::string text;
    for (auto const &f : all)
        text += f.text;
    std::vector<Record> records;
    std::vector<std::size_t> next(posters, 0);
    for (std::size_t at = 0; at < text.size();)
    {
        std::size_t length = 0;
        std::string why;
        for (std::size_t t = 0; t < posters && !length; ++t)
        {
            if (next[t] < plan[t].size() && (length = match(text, at, records.size(), plan[t][next[t]], s.message_size, why)) != 0)
                records.push_back(plan[t][next[t]++]);
        }
        PBT_CHECK(length != 0, "record %zu at %zu is not the next one of any thread (%s): %s", records.size(), at, why.c_str(), show(text.substr(at, 80)).c_str());
        at += length;
    }
    PBT_CHECK(records.size() == total, "only %zu of %zu records are in the files", records.size(), total);
    check(all, records, s, "threads");
    src.note(strf("%u workers, %zu threads, %s; %zu records in %zu files", workers, posters, s.show().c_str(), total, all.size()));
    if (all.size() > 1)
        src.label("several files");
    if (posters > 1)
        src.nontrivial();
}

} // namespace

int main(int argc, char **argv)
{
    return pbt::main(
        argc,
        argv,
        {"L02",
         "the records needed several files; or a fault kept statements from being written; or several threads logged",
         {
             {"files", files, 3000, 100000},
             {"faults", faults, 3000, 100000},
             {"threads", threads, 1500, 50000},
         },
         {},
         {"compressed files are decoded by the library (C02 checks that)", "a full disk is simulated by the process's file size limit"}});
}
