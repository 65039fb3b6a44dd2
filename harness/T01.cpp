// encodes: Stopwatch (constructor, start, stop, reset, elapsed)
// bounds: every sequence of 5 (thorough: 7) calls of start, stop, reset and elapsed; clock readings unbounded
// assumes: clock readings do not decrease; they are exact numbers of seconds
#include "common.hpp"
#include "factorama/stopwatch.hpp"
#include <chrono>
#ifdef VERIF_THOROUGH
static const int CALLS = 7;
#else
static const int CALLS = 5;
#endif

// each call reads the clock at most once; the reading it must use is bracketed by two readings of our own
CASE(any_sequence)
{
    auto now = [] { return std::chrono::duration<double>(std::chrono::high_resolution_clock::now().time_since_epoch()).count(); };
    Stopwatch w;
    require_eq("elapsed at first", w.elapsed(), 0.0);
    // lower and upper limits of the accumulated time and of the running start
    double lo = 0.0, hi = 0.0, s0 = 0.0, s1 = 0.0, last = 0.0;
    bool running = false;
    for (int i = 0; i < CALLS; ++i) {
        std::string n = std::to_string(i);
        int op = choose("call" + n, 0, 3);
        double t0 = now();
        double e = 0.0;
        if (op == 0) w.start();
        if (op == 1) w.stop();
        if (op == 2) w.reset();
        e = op == 3 ? w.elapsed() : 0.0;
        double t1 = now();
        if (op == 0 && !running) { running = true; s0 = t0; s1 = t1; }
        else if (op == 1 && running) { running = false; lo = lo + (t0 - s1); hi = hi + (t1 - s0); }
        else if (op == 2) { running = false; lo = 0.0; hi = 0.0; last = 0.0; }
        else if (op == 3) {
            double l = running ? lo + (t0 - s1) : lo, h = running ? hi + (t1 - s0) : hi;
            require_le("at least the intervals " + n, l, e);
            require_le("at most the intervals " + n, e, h);
            require_le("not decreasing " + n, last, e);
            last = e;
        }
    }
    // once stopped the reported time does not depend on the clock
    w.stop();
    double a = w.elapsed(), b = w.elapsed();
    require_eq("steady when stopped", a, b);
    require_le("not decreasing at the end", last, a);
    if (!running) { require_le("at least the intervals at the end", lo, a); require_le("at most the intervals at the end", a, hi); }
    w.reset();
    require_eq("reset", w.elapsed(), 0.0);
}
