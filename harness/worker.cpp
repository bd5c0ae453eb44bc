// Executes assemble requests in throw-away child processes and reports what could be observed:
// how the process ended, the returned words, and what was printed.
#include <algorithm>
#include <cerrno>
#include <clocale>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <locale>
#include <string>
#include <thread>
#include <vector>

#include <malloc.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include "nxas.h"

static bool read_all(int fd, void* p, size_t n)
{
    char* c = static_cast<char*>(p);
    while (n) {
        const ssize_t r = read(fd, c, n);
        if (r < 0 && errno == EINTR)
            continue;
        if (r <= 0)
            return false;
        c += r;
        n -= static_cast<size_t>(r);
    }
    return true;
}

static void write_all(int fd, const void* p, size_t n)
{
    const char* c = static_cast<const char*>(p);
    while (n) {
        const ssize_t r = write(fd, c, n);
        if (r < 0 && errno == EINTR)
            continue;
        if (r <= 0)
            _exit(99);
        c += r;
        n -= static_cast<size_t>(r);
    }
}

static uint32_t get_u32(bool& ok)
{
    uint32_t v = 0;
    ok = ok && read_all(0, &v, 4);
    return v;
}

static std::string get_str(bool& ok)
{
    const uint32_t n = get_u32(ok);
    std::string s(ok ? n : 0, '\0');
    ok = ok && read_all(0, s.data(), s.size());
    return s;
}

static std::string slurp(int fd)
{
    const off_t n = lseek(fd, 0, SEEK_END);
    lseek(fd, 0, SEEK_SET);
    std::string s(static_cast<size_t>(n), '\0');
    read_all(fd, s.data(), s.size());
    return s;
}

static void reset(int fd)
{
    if (ftruncate(fd, 0) != 0)
        _exit(98);
    lseek(fd, 0, SEEK_SET);
}

using result = std::vector<uint64_t>;

static void put(int fd, const result& r)
{
    const uint32_t n = static_cast<uint32_t>(r.size());
    write_all(fd, &n, 4);
    write_all(fd, r.data(), r.size() * 8);
}

static constexpr int MODIFIED = 97;
static constexpr int NO_LOCALE = 92;

// leaves a pattern where the next calls will have their local variables
[[gnu::noinline]] static void soil_stack(int pattern)
{
    volatile char area[48 * 1024];
    for (size_t i = 0; i < sizeof(area); ++i)
        area[i] = static_cast<char>(pattern);
}

static void child(uint8_t kind, const std::string& file, const std::vector<std::string>& items,
                  uint32_t param, int res)
{
    // kind 3: under the locale named by the last item; what it gives must not depend on it
    if (kind == 3) {
        std::vector<std::string> rest(items.begin(), items.end() - 1);
        if (!std::setlocale(LC_ALL, items.back().c_str()))
            _exit(NO_LOCALE);
        std::locale::global(std::locale(items.back().c_str()));
        child(0, file, rest, param, res);
        return;
    }
    std::vector<result> results(items.size());
    const std::vector<std::string> copy = items;
    if (kind <= 1) {
        // param: what unwritten stack and heap memory holds (8 bits), a left-over errno (8 bits), and
        // whether all texts are given in the same buffer, one after the other (1 bit)
        const int soil = static_cast<int>(param & 255);
        const bool same_buffer = (param >> 16 & 1) != 0;
        std::string buffer;
        for (const std::string& item : items)
            buffer.reserve(std::max(buffer.capacity(), item.size()));
        if (soil)
            mallopt(M_PERTURB, soil);
        for (size_t i = 0; i < items.size(); ++i) {
            if (same_buffer)
                buffer.assign(items[i].data(), items[i].size());
            if (soil)
                soil_stack(soil);
            if (param & 0xff00)
                errno = static_cast<int>(param >> 8 & 255);
            results[i] = nxas::assemble(same_buffer ? buffer : items[i], file.c_str());
            if (same_buffer && buffer != items[i])
                _exit(MODIFIED);
        }
    } else {
        // every thread assembles every item `param` times, starting at its own item
        const size_t n = items.size();
        std::vector<std::vector<result>> per(n, std::vector<result>(n));
        std::vector<int> unstable(n, 0);
        std::vector<std::thread> threads;
        for (size_t t = 0; t < n; ++t) {
            threads.emplace_back([&, t] {
                for (uint32_t round = 0; round < param; ++round) {
                    for (size_t k = 0; k < n; ++k) {
                        const size_t i = (t + k) % n;
                        result r = nxas::assemble(items[i], file.c_str());
                        if (round == 0)
                            per[t][i] = std::move(r);
                        else if (r != per[t][i])
                            unstable[t] = 1;
                    }
                }
            });
        }
        for (std::thread& t : threads)
            t.join();
        for (size_t t = 0; t < n; ++t)
            if (unstable[t])
                _exit(96);
        results.clear();
        for (size_t t = 0; t < n; ++t)
            for (size_t i = 0; i < n; ++i)
                results.push_back(per[t][i]);
    }
    if (copy != items)
        _exit(MODIFIED);
    for (const result& r : results)
        put(res, r);
}

int main(int argc, char** argv)
{
    long cpu = argc > 1 ? std::atol(argv[1]) : 30;
    const long mem_mb = argc > 2 ? std::atol(argv[2]) : 0;
    const int res = memfd_create("res", 0);
    const int err = memfd_create("err", 0);
    const int out = memfd_create("out", 0);
    if (res < 0 || err < 0 || out < 0)
        return 95;
    for (;;) {
        bool ok = true;
        uint8_t kind = 0;
        if (!read_all(0, &kind, 1))
            return 0;
        const uint32_t param = get_u32(ok);
        const std::string file = get_str(ok);
        const uint32_t count = get_u32(ok);
        std::vector<std::string> items;
        for (uint32_t i = 0; ok && i < count; ++i)
            items.push_back(get_str(ok));
        if (!ok)
            return 94;
        reset(res);
        reset(err);
        reset(out);
        const pid_t pid = fork();
        if (pid == 0) {
            const rlimit lim{static_cast<rlim_t>(cpu), static_cast<rlim_t>(cpu + 5)};
            setrlimit(RLIMIT_CPU, &lim);
            const rlimit core{0, 0};
            setrlimit(RLIMIT_CORE, &core);
            if (mem_mb > 0) {
                const rlimit mem{static_cast<rlim_t>(mem_mb) << 20, static_cast<rlim_t>(mem_mb) << 20};
                setrlimit(RLIMIT_AS, &mem);
            }
            const int null_fd = dup2(out, 1) < 0 || dup2(err, 2) < 0 ? -1 : 0;
            if (null_fd < 0)
                _exit(93);
            close(0);
            child(kind, file, items, param, res);
            std::fflush(stdout);
            std::fflush(stderr);
            _exit(0);
        }
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
        }
        uint8_t how = 0;
        int32_t code = 0;
        if (WIFSIGNALED(status)) {
            how = 2;
            code = WTERMSIG(status);
            // once something hangs, do not wait as long for the rest
            if (code == SIGXCPU || code == SIGKILL)
                cpu = std::min(cpu, 3L);
        } else if (WEXITSTATUS(status) != 0) {
            how = 1;
            code = WEXITSTATUS(status);
        }
        const std::string r = how == 0 ? slurp(res) : std::string{};
        const std::string e = slurp(err);
        const std::string o = slurp(out);
        std::string resp;
        resp.push_back(static_cast<char>(how));
        resp.append(reinterpret_cast<const char*>(&code), 4);
        for (const std::string* s : {&r, &e, &o}) {
            const uint32_t n = static_cast<uint32_t>(s->size());
            resp.append(reinterpret_cast<const char*>(&n), 4);
            resp += *s;
        }
        write_all(1, resp.data(), resp.size());
    }
}
