// The few pieces of the runtime that need the C++ library (compiled without instrumentation).
#include <cxxabi.h>
#include <exception>
#include <new>
#include <stdio.h>
#include <string.h>
#include <typeinfo>

static char g_msg[512];

void rt_throw_bad_alloc()
{
    throw std::bad_alloc();
}

char const *rt_terminate_message()
{
    return g_msg;
}

extern "C" void abort() noexcept;

static void on_terminate()
{
    g_msg[0] = 0;
    if (std::type_info *ti = abi::__cxa_current_exception_type())
    {
        try
        {
            throw;
        }
        catch (std::exception const &e)
        {
            snprintf(g_msg, sizeof g_msg, "uncaught exception %s: %s", ti->name(), e.what());
        }
        catch (...)
        {
            snprintf(g_msg, sizeof g_msg, "uncaught exception %s", ti->name());
        }
    }
    abort();
}

void rt_install_terminate()
{
    std::set_terminate(on_terminate);
}
