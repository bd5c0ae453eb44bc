// Coverage-guided target: assemble any bytes. exit() inside the library is redirected (--wrap=exit)
// back here; memory the abandoned call still owned is released so that long campaigns do not grow.
#include <csetjmp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <string>

#include <unistd.h>

#include "nxas.h"

static jmp_buf env;
static volatile bool active = false;
static volatile int status = 0;

static void** live = nullptr;
static size_t num_live = 0;
static size_t cap_live = 0;

static void track(void* p)
{
    if (num_live == cap_live) {
        cap_live = cap_live ? cap_live * 2 : 1024;
        live = static_cast<void**>(std::realloc(live, cap_live * sizeof(void*)));
    }
    live[num_live++] = p;
}

void* operator new(size_t n)
{
    void* const p = std::malloc(n ? n : 1);
    if (!p)
        std::abort();
    if (active)
        track(p);
    return p;
}

void* operator new[](size_t n)
{
    return operator new(n);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    return operator new(n);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept
{
    return operator new(n);
}

static void release(void* p)
{
    if (!p)
        return;
    if (active) {
        for (size_t i = num_live; i-- > 0;) {
            if (live[i] == p) {
                live[i] = live[--num_live];
                break;
            }
        }
    }
    std::free(p);
}

void operator delete(void* p) noexcept
{
    release(p);
}
void operator delete[](void* p) noexcept
{
    release(p);
}
void operator delete(void* p, const std::nothrow_t&) noexcept
{
    release(p);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept
{
    release(p);
}
void operator delete(void* p, size_t) noexcept
{
    release(p);
}
void operator delete[](void* p, size_t) noexcept
{
    release(p);
}

extern "C" [[noreturn]] void __real_exit(int code);

extern "C" [[noreturn]] void __wrap_exit(int code)
{
    if (!active)
        __real_exit(code);
    status = code;
    std::longjmp(env, 1);
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    static std::string text;
    text.assign(reinterpret_cast<const char*>(data), size);
    num_live = 0;
    if (setjmp(env) == 0) {
        active = true;
        nxas::assemble(text, "fuzz");
        active = false;
    } else {
        active = false;
        if (status != 1)
            std::abort();
    }
    for (size_t i = 0; i < num_live; ++i)
        std::free(live[i]);
    num_live = 0;
    return 0;
}
