// Interface between the instrumented thread bodies (threads.cpp) and the runtime that schedules them (explore.cpp).
#pragma once
#include <cstddef>
extern "C"
{
void vt_call(const char* op);            // an operation of the calling thread begins
void vt_ret(long result);                // ... ends
void vt_destroy(long object);            // the destructor of an object runs
void* vt_plain(std::size_t n);           // memory that is not observed
}
namespace vt
{
struct Program                            // implemented by threads.cpp
{
    virtual ~Program() {}
    virtual int threads() const = 0;
    virtual void setup() = 0;             // before the threads start
    virtual void thread(int t) = 0;       // 1..threads()
    virtual void teardown() = 0;          // after they ended
    virtual const char* header() = 0;     // fields of the event that starts the history
};
struct Limits
{
    long executions = 20000;              // explored at most
    long keep = 300;                      // recorded at most
    int preemptions = -1;                 // -1: every order of dependent operations (sleep sets)
};
void explore(Program& p, const Limits& l);
}
