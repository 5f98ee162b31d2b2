#include "hist.hpp"
// copies
void run(h::rng& r, bool thorough) {
    m::focus = 1u << m::COPY | 1u << m::COPY_FROM | 1u << m::COPY_MATCH | 1u << m::MOVE_MATCH;
    //                               reset clear copy cfrom cmatch mmatch move masgn seal drop create unwind cmp mutation
    m::histories(r, thorough ? 6000 : 500, 25, {4, 1, 8, 10, 8, 8, 1, 1, 1, 3, 6, 0, 0, 1}, 30);
    m::histories(r, thorough ? 3000 : 250, 25, {4, 1, 8, 10, 8, 8, 1, 1, 1, 3, 6, 0, 0, 1}, 30, true, m::F_EQ | m::F_CMP);
}
