#ifndef VP_CMD_HPP
#define VP_CMD_HPP
// A client of the command socket
#include "common.hpp"

#include <xtr/detail/commands/frame.hpp>
#include <xtr/detail/commands/requests.hpp>
#include <xtr/detail/commands/responses.hpp>

#include <fnmatch.h>
#include <poll.h>
#include <regex.h>
#include <sys/socket.h>
#include <sys/un.h>

namespace vp
{
    namespace xd = xtr::detail;

    inline int cmd_connect(const std::string& path)
    {
        const int fd = ::socket(AF_LOCAL, SOCK_SEQPACKET|SOCK_CLOEXEC, 0);
        if (fd == -1)
            inconclusive("socket failed");
        sockaddr_un a{};
        a.sun_family = AF_LOCAL;
        std::memcpy(a.sun_path, path.data(), std::min(path.size(), sizeof a.sun_path - 1));
        if (::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0)
        {
            const int e = errno;
            ::close(fd);
            errno = e;
            return -1;
        }
        return fd;
    }

    struct reply
    {
        enum kind_t { none, info, success, error, bad } kind = none;
        xd::sink_info si{};
        std::string name, reason;
        std::size_t raw_size = 0;
    };

    struct answer
    {
        bool connected = false;
        bool eof = false;      // the server closed the connection after its replies
        bool timed_out = false;
        int err = 0;
        std::vector<reply> r;

        bool ok() const { return eof && r.size() == 1 && r[0].kind == reply::success; }
        bool failed() const { return eof && r.size() == 1 && r[0].kind == reply::error; }
        std::string str() const
        {
            std::string s = fmt::format("connected={} eof={} timeout={} err={} replies={}", connected, eof, timed_out, err, r.size());
            for (auto& x : r)
                s += x.kind == reply::info ? " info:" + x.name : x.kind == reply::success ? " success" :
                    x.kind == reply::error ? " error:" + x.reason : " bad";
            return s;
        }
    };

    inline reply parse_reply(const char* p, std::size_t n)
    {
        reply r;
        r.raw_size = n;
        r.kind = reply::bad;
        if (n < sizeof(xd::frame_header))
            return r;
        xd::frame_header h;
        std::memcpy(&h, p, sizeof h);
        if (h.frame_id == xd::sink_info::frame_id && n == sizeof(xd::frame<xd::sink_info>))
        {
            xd::frame<xd::sink_info> f;
            std::memcpy(static_cast<void*>(&f), p, n);
            r.si = f.payload;
            if (::strnlen(r.si.name, sizeof r.si.name) == sizeof r.si.name)
                return r; // not terminated
            r.name = r.si.name;
            r.kind = reply::info;
        }
        else if (h.frame_id == xd::success::frame_id && n == sizeof(xd::frame<xd::success>))
            r.kind = reply::success;
        else if (h.frame_id == xd::error::frame_id && n == sizeof(xd::frame<xd::error>))
        {
            xd::frame<xd::error> f;
            std::memcpy(static_cast<void*>(&f), p, n);
            if (::strnlen(f.payload.reason, sizeof f.payload.reason) == sizeof f.payload.reason)
                return r;
            r.reason = f.payload.reason;
            r.kind = reply::error;
        }
        return r;
    }

    // Reads replies until the server disconnects
    inline void cmd_read(int fd, answer& a, double timeout = 40.0, int max_replies = -1)
    {
        double end = now_s() + timeout;
        const sched_snapshot snap;
        int extended = 0;
        char b[4096];
        while (max_replies < 0 || int(a.r.size()) < max_replies)
        {
            ::pollfd p{fd, POLLIN, 0};
            const double left = end - now_s();
            if (left <= 0)
            {
                if (snap.starved())
                {
                    if (++extended == 5)
                        inconclusive("threads are not being scheduled");
                    end = now_s() + timeout;
                    continue;
                }
                a.timed_out = true;
                return;
            }
            if (::poll(&p, 1, int(left * 1000) + 1) <= 0)
                continue;
            const auto n = ::recv(fd, b, sizeof b, MSG_DONTWAIT);
            if (n == 0)
            {
                a.eof = true;
                return;
            }
            if (n < 0)
            {
                if (errno == EINTR || errno == EAGAIN)
                    continue;
                a.err = errno;
                return;
            }
            a.r.push_back(parse_reply(b, std::size_t(n)));
        }
    }

    // One request on a connection of its own
    inline answer cmd_raw(const std::string& path, const void* p, std::size_t n, double timeout = 40.0)
    {
        answer a;
        const int fd = cmd_connect(path);
        if (fd == -1)
        {
            a.err = errno;
            return a;
        }
        a.connected = true;
        if (::send(fd, p, n, MSG_NOSIGNAL) != ::ssize_t(n))
            a.err = errno;
        else
            cmd_read(fd, a, timeout);
        ::close(fd);
        return a;
    }

    inline void set_pattern(xd::pattern& p, xd::pattern_type_t type, const std::string& text, int ignore_case = 0)
    {
        p.type = type;
        p.ignore_case = static_cast<decltype(p.ignore_case)>(ignore_case);
        std::memset(p.text, 0, sizeof p.text);
        std::memcpy(p.text, text.data(), std::min(text.size(), sizeof p.text - 1));
    }

    inline answer cmd_status(const std::string& path, xd::pattern_type_t type = xd::pattern_type_t::none,
        const std::string& text = "", int ignore_case = 0)
    {
        xd::frame<xd::status> f;
        set_pattern(f->pattern, type, text, ignore_case);
        return cmd_raw(path, &f, sizeof f);
    }

    inline answer cmd_level(const std::string& path, xtr::log_level_t level,
        xd::pattern_type_t type = xd::pattern_type_t::none, const std::string& text = "", int ignore_case = 0)
    {
        xd::frame<xd::set_level> f;
        f->level = level;
        set_pattern(f->pattern, type, text, ignore_case);
        return cmd_raw(path, &f, sizeof f);
    }

    inline answer cmd_reopen(const std::string& path)
    {
        xd::frame<xd::reopen> f;
        return cmd_raw(path, &f, sizeof f);
    }

    // Independent model of pattern matching. -1: invalid pattern
    struct model_matcher
    {
        xd::pattern_type_t type;
        std::string text;
        int flags = 0;
        regex_t re{};
        bool valid = true;
        bool compiled = false;
        model_matcher(xd::pattern_type_t t, std::string s, bool icase) : type(t), text(std::move(s))
        {
            if (type == xd::pattern_type_t::extended_regex || type == xd::pattern_type_t::basic_regex)
            {
                flags = REG_NOSUB | (type == xd::pattern_type_t::extended_regex ? REG_EXTENDED : 0) | (icase ? REG_ICASE : 0);
                valid = compiled = ::regcomp(&re, text.c_str(), flags) == 0;
            }
            else if (type == xd::pattern_type_t::wildcard)
                flags = icase ? FNM_CASEFOLD : 0;
        }
        ~model_matcher() { if (compiled) ::regfree(&re); }
        model_matcher(const model_matcher&) = delete;
        bool operator()(const std::string& name) const
        {
            switch (type)
            {
            case xd::pattern_type_t::extended_regex:
            case xd::pattern_type_t::basic_regex:
                return ::regexec(&re, name.c_str(), 0, nullptr, 0) == 0;
            case xd::pattern_type_t::wildcard:
                return ::fnmatch(text.c_str(), name.c_str(), flags) == 0;
            default:
                return true;
            }
        }
    };

    inline std::string cmd_path()
    {
        static std::atomic<int> n{0};
        return opt.dir + "/c" + std::to_string(n++);
    }
}
#endif
