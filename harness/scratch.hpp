#pragma once
#include <sys/stat.h>
#include <unistd.h>

#include <cstdint>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <string>

// A directory of this process's own below the run's scratch directory (the working directory).
inline std::filesystem::path const &scratch_dir()
{
    static pid_t owner = 0;
    static std::filesystem::path dir;
    if (owner != getpid())
    {
        owner = getpid();
        dir = std::filesystem::current_path() / ("p" + std::to_string(owner));
        std::filesystem::remove_all(dir);
        std::filesystem::create_directory(dir);
    }
    return dir;
}

// A new empty directory for one case; removed afterwards.
struct CaseDir
{
    CaseDir()
    {
        static std::uint64_t serial = 0;
        path = scratch_dir() / ("c" + std::to_string(serial++));
        std::filesystem::remove_all(path);
        std::filesystem::create_directory(path);
    }
    ~CaseDir()
    {
        std::error_code ec;
        std::filesystem::remove_all(path, ec);
    }
    std::filesystem::path path;
};

inline void write_file(std::filesystem::path const &p, std::string const &content)
{
    std::ofstream o(p, std::ios::binary | std::ios::trunc);
    o.write(content.data(), static_cast<std::streamsize>(content.size()));
}

inline std::string read_file(std::filesystem::path const &p)
{
    std::ifstream i(p, std::ios::binary);
    std::ostringstream o;
    o << i.rdbuf();
    return o.str();
}

// A stream buffer that hands out its content in pieces of the given size and, if wanted, fails by
// throwing once the content is used up (a read error).
#include <streambuf>
struct PieceBuf : std::streambuf
{
    PieceBuf(std::string text, std::size_t piece, bool broken) : m_text(std::move(text)), m_piece(piece ? piece : 1), m_broken(broken) { }

protected:
    int_type underflow() override
    {
        if (gptr() < egptr())
            return traits_type::to_int_type(*gptr());
        if (m_at == m_text.size())
        {
            if (m_broken)
                throw std::ios_base::failure("injected read error");
            return traits_type::eof();
        }
        std::size_t const n = std::min(m_piece, m_text.size() - m_at);
        setg(m_text.data() + m_at, m_text.data() + m_at, m_text.data() + m_at + n);
        m_at += n;
        return traits_type::to_int_type(*gptr());
    }

private:
    std::string m_text;
    std::size_t m_piece, m_at {0};
    bool m_broken;
};

// A seekable output buffer that accepts only so many bytes.
struct FullBuf : std::streambuf
{
    explicit FullBuf(std::size_t room) : m_room(room) { }
    std::string data;

protected:
    std::streamsize xsputn(char const *s, std::streamsize n) override
    {
        std::streamsize done = 0;
        for (; done < n && put(s[done]); ++done)
            ;
        return done;
    }
    int_type overflow(int_type c) override
    {
        if (traits_type::eq_int_type(c, traits_type::eof()) || !put(static_cast<char>(c)))
            return traits_type::eof();
        return c;
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode) override
    {
        m_at = static_cast<std::size_t>(std::streamoff(p));
        return p;
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override
    {
        m_at = static_cast<std::size_t>(o + (d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? static_cast<off_type>(m_at) : static_cast<off_type>(data.size())));
        return pos_type(static_cast<off_type>(m_at));
    }

private:
    bool put(char c)
    {
        if (m_at >= m_room)
            return false;
        if (m_at >= data.size())
            data.resize(m_at + 1);
        data[m_at++] = c;
        return true;
    }
    std::size_t m_room, m_at {0};
};
