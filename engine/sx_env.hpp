// The clocks of the code under test: every look at one gives a later time, so
// that nothing can depend on two looks being close together.  The symbolic
// build calls these under other names, because the solver has its own timers.
#pragma once
#include <ctime>

static long sxTick()
{
    static long ticks = 0;
    return 1700000000 + 7 * ++ticks;
}
#ifdef SX_RENAMED
#define SX_CLOCK( name ) sx_c_##name
#else
#define SX_CLOCK( name ) name
#endif
extern "C"
{
    long SX_CLOCK( _ZNSt6chrono3_V212system_clock3nowEv )()
    {
        return sxTick() * 1000000000;
    }
    long SX_CLOCK( _ZNSt6chrono3_V212steady_clock3nowEv )()
    {
        return sxTick() * 1000000000;
    }
    time_t SX_CLOCK( time )( time_t * t ) noexcept
    {
        time_t r = sxTick();
        if( t )
            *t = r;
        return r;
    }
}
