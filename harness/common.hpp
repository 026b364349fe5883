// Shared engine of the concrete (bounded) stage: runs cases decoded from a tape of integers against
// the real headers in /repo, in a forked worker, so that a crash, a failed assertion, a sanitizer
// report, a hang or a mismatch with the oracle all end in one replayable, shrunk tape.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <algorithm>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <unordered_set>
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();

namespace hz {

struct mismatch : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

// Source of every choice a case makes.  In generation mode it draws from a PRNG and records; in
// replay mode it reads the recorded tape (0 once exhausted).
class tape
{
public:
    static constexpr std::size_t cap = 1 << 14;
    struct shared
    {
        volatile uint64_t cases, nontrivial, distinct, ops, len;
        volatile uint32_t data[cap];
        char msg[1 << 14];
    };

    explicit tape(shared* sh, uint64_t seed) : m_sh(sh), m_state(seed * 0x9E3779B97F4A7C15ull + 0x1234567)
    {
        m_sh->len = 0;
    }
    tape(std::vector<uint32_t> fixed, bool verbose) : m_fixed(std::move(fixed)), m_replay(true), m_verbose(verbose)
    {}

    uint32_t raw()
    {
        if (m_replay)
            return m_pos < m_fixed.size() ? m_fixed[m_pos++] : 0;
        m_state ^= m_state << 13;
        m_state ^= m_state >> 7;
        m_state ^= m_state << 17;
        uint32_t v = static_cast<uint32_t>(m_state >> 16) & 0xffff;
        if (m_sh->len < cap)
        {
            m_sh->data[m_sh->len] = v;
            m_sh->len = m_sh->len + 1;
            return v;
        }
        return 0;
    }
    // uniform in [0, n)
    uint32_t u(uint32_t n)
    {
        return n <= 1 ? (raw(), 0) : raw() % n;
    }
    // uniform in [lo, hi]
    int i(int lo, int hi)
    {
        return lo + static_cast<int>(u(static_cast<uint32_t>(hi - lo + 1)));
    }
    bool b()
    {
        return u(2) != 0;
    }
    bool chance(uint32_t num, uint32_t den)
    {
        return u(den) < num;
    }
    bool verbose() const
    {
        return m_verbose;
    }
    // one operation performed on the object under test
    template<typename... A>
    void op(const A&... a)
    {
        ++m_ops;
        if (m_verbose)
        {
            std::ostringstream os;
            os << "  " << m_ops << ": ";
            ((os << a), ...);
            os << "\n";
            std::string s = os.str();
            if (write(1, s.data(), s.size()) < 0)
                _exit(9);
        }
    }
    // the case reached a state that exercises the property
    void hit()
    {
        m_hit = true;
    }
    bool was_hit() const
    {
        return m_hit;
    }
    uint64_t ops() const
    {
        return m_ops;
    }

private:
    shared* m_sh = nullptr;
    uint64_t m_state = 1;
    std::vector<uint32_t> m_fixed;
    std::size_t m_pos = 0;
    bool m_replay = false, m_verbose = false, m_hit = false;
    uint64_t m_ops = 0;
};

template<typename... A>
[[noreturn]] inline void fail(const A&... a)
{
    std::ostringstream os;
    ((os << a), ...);
    throw mismatch(os.str());
}

#define HZ_CHECK(cond, ...)                                                                                            \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(cond))                                                                                                   \
        {                                                                                                              \
            std::ostringstream os_;                                                                                    \
            os_ << "check failed: " << #cond << " -- " << __VA_ARGS__;                                                 \
            throw ::hz::mismatch(os_.str());                                                                           \
        }                                                                                                              \
    } while (false)

// Object of a value type with identity bookkeeping: live instances are counted, so that leaks and
// double destructions show without LeakSanitizer.
struct counted
{
    static long& live()
    {
        static long n = 0;
        return n;
    }
};

using case_fn = std::function<void(tape&)>;

struct named_case
{
    const char* name;
    case_fn fn;
};

// every case destroys all it creates: memory still allocated after it, again and again, is a leak
inline void leak_check(const case_fn& fn, const std::vector<uint32_t>& t)
{
    std::size_t b[4];
    for (int i = 0; i < 4; ++i)
    {
        {
            tape tp(t, false);
            fn(tp);
        }
        b[i] = __sanitizer_get_current_allocated_bytes();
    }
    if (b[1] > b[0] && b[2] > b[1] && b[3] > b[2])
        throw mismatch("memory leak: " + std::to_string(b[3] - b[2]) + " bytes stay allocated after the objects are destroyed");
}

inline int run_fixed(const case_fn& fn, const std::vector<uint32_t>& t, bool verbose, std::string& out, int secs)
{
    int fds[2];
    if (pipe(fds))
        _exit(9);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        close(fds[0]);
        if (!verbose)
        {
            int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 1);
            dup2(nul, 2);
        }
        alarm(secs);
        int rc = 0;
        try
        {
            tape tp(t, verbose);
            fn(tp);
            leak_check(fn, t);
        }
        catch (const mismatch& e)
        {
            if (write(fds[1], e.what(), strlen(e.what())) < 0)
                _exit(9);
            rc = 1;
        }
        catch (const std::exception& e)
        {
            std::string s = std::string("unexpected exception: ") + e.what();
            if (write(fds[1], s.data(), s.size()) < 0)
                _exit(9);
            rc = 1;
        }
        _exit(rc);
    }
    close(fds[1]);
    out.clear();
    char buf[4096];
    ssize_t n;
    while ((n = read(fds[0], buf, sizeof buf)) > 0)
        out.append(buf, n);
    close(fds[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        return 0;
    if (WIFSIGNALED(st))
    {
        std::ostringstream os;
        os << "terminated by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
        if (WTERMSIG(st) == SIGALRM)
            os << ": did not terminate";
        out = os.str();
    }
    else if (out.empty())
        out = "sanitizer report or abnormal exit";
    return 1;
}

inline std::vector<uint32_t> shrink(const case_fn& fn, std::vector<uint32_t> t, std::string& msg, double budget)
{
    time_t t0 = time(nullptr);
    auto late = [&] { return difftime(time(nullptr), t0) > budget; };
    std::string m;
    auto bad = [&](const std::vector<uint32_t>& c) { return run_fixed(fn, c, false, m, 5) != 0; };
    for (std::size_t cut = t.size() / 2; cut >= 1 && !late(); cut /= 2)
        while (t.size() > cut && !late())
        {
            std::vector<uint32_t> c(t.begin(), t.end() - cut);
            if (!bad(c))
                break;
            t = c;
            msg = m;
        }
    for (std::size_t len = std::max<std::size_t>(t.size() / 2, 1); len >= 1 && !late(); len /= 2)
        for (std::size_t i = 0; i + len <= t.size() && !late();)
        {
            std::vector<uint32_t> c(t);
            c.erase(c.begin() + i, c.begin() + i + len);
            if (bad(c))
            {
                t = c;
                msg = m;
            }
            else
                i += len;
        }
    for (std::size_t i = 0; i < t.size() && !late(); ++i)
        for (uint32_t v : {0u, 1u, 2u, 3u, 5u})
        {
            if (t[i] <= v)
                break;
            std::vector<uint32_t> c(t);
            c[i] = v;
            if (bad(c))
            {
                t = c;
                msg = m;
                break;
            }
        }
    return t;
}

// usage: PROG run CASE SECONDS SEED MAXCASES REPLAYFILE | PROG replay FILE | PROG list
inline int main_impl(int argc, char** argv, const std::vector<named_case>& cases)
{
    auto find = [&](const std::string& n) -> const named_case* {
        for (const auto& c : cases)
            if (n == c.name)
                return &c;
        return nullptr;
    };
    if (argc >= 2 && !strcmp(argv[1], "list"))
    {
        for (const auto& c : cases)
            printf("%s\n", c.name);
        return 0;
    }
    if (argc >= 3 && !strcmp(argv[1], "replay"))
    {
        FILE* f = fopen(argv[2], "r");
        if (!f)
            return 2;
        char name[256];
        if (fscanf(f, " case %255s tape", name) != 1)
            return 2;
        std::vector<uint32_t> t;
        unsigned v;
        while (fscanf(f, "%u", &v) == 1)
            t.push_back(v);
        fclose(f);
        const named_case* c = find(name);
        if (!c)
            return 2;
        std::string msg;
        int rc = run_fixed(c->fn, t, true, msg, 20);
        printf("%s: %s\n", rc ? "FAILS" : "holds", msg.c_str());
        return rc ? 1 : 0;
    }
    if (argc < 7 || strcmp(argv[1], "run"))
        return 2;
    const named_case* c = find(argv[2]);
    if (!c)
        return 2;
    double secs = atof(argv[3]);
    uint64_t seed = strtoull(argv[4], nullptr, 10);
    uint64_t maxcases = strtoull(argv[5], nullptr, 10);
    auto* sh = static_cast<tape::shared*>(
        mmap(nullptr, sizeof(tape::shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    memset((void*)sh, 0, sizeof *sh);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        if (!getenv("HZ_STDERR"))
            dup2(nul, 2);
        struct timespec t0, t1;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        std::unordered_set<uint64_t> seen;
        seen.reserve(1 << 20);
        for (uint64_t k = 0; k < maxcases; ++k)
        {
            clock_gettime(CLOCK_MONOTONIC, &t1);
            if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > secs)
                break;
            alarm(20);
            tape tp(sh, seed * 1000003ull + k + 1);
            try
            {
                std::size_t b0 = __sanitizer_get_current_allocated_bytes();
                c->fn(tp);
                if (__sanitizer_get_current_allocated_bytes() > b0)
                    leak_check(c->fn, std::vector<uint32_t>(sh->data, sh->data + sh->len));
            }
            catch (const std::exception& e)
            {
                snprintf(sh->msg, sizeof sh->msg, "%s", e.what());
                _exit(1);
            }
            sh->cases = sh->cases + 1;
            sh->ops = sh->ops + tp.ops();
            if (tp.was_hit())
            {
                sh->nontrivial = sh->nontrivial + 1;
                uint64_t hsh = 1469598103934665603ull;
                for (uint64_t q = 0; q < sh->len; ++q)
                    hsh = (hsh ^ sh->data[q]) * 1099511628211ull;
                if (seen.size() < (1u << 20) && seen.insert(hsh).second)
                    sh->distinct = sh->distinct + 1;
            }
        }
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    printf(
        "STATS cases=%llu nontrivial=%llu distinct=%llu ops=%llu\n", (unsigned long long)sh->cases,
        (unsigned long long)sh->nontrivial, (unsigned long long)sh->distinct, (unsigned long long)sh->ops);
    if (ok)
        return 0;
    std::vector<uint32_t> t(sh->data, sh->data + sh->len);
    std::string msg;
    if (!run_fixed(c->fn, t, false, msg, 20))
    {
        // fails only after earlier cases of the same process: still a failure, report what was seen
        printf("FAIL (not reproduced in isolation) %s\n", sh->msg[0] ? sh->msg : "abnormal termination");
        FILE* f = fopen(argv[6], "w");
        fprintf(f, "case %s tape\n", c->name);
        for (uint32_t v : t)
            fprintf(f, "%u ", v);
        fprintf(f, "\n");
        fclose(f);
        return 3;
    }
    t = shrink(c->fn, t, msg, 30);
    run_fixed(c->fn, t, false, msg, 20);
    FILE* f = fopen(argv[6], "w");
    fprintf(f, "case %s tape\n", c->name);
    for (uint32_t v : t)
        fprintf(f, "%u ", v);
    fprintf(f, "\n");
    fclose(f);
    printf("FAIL %s\n", msg.c_str());
    fflush(stdout);
    std::string m2;
    run_fixed(c->fn, t, true, m2, 20);
    return 1;
}

} // namespace hz
