#include "hist.hpp"
// accessors
void run(h::rng& r, bool thorough) {
    m::focus = 0;
    //                               reset clear copy cfrom cmatch mmatch move masgn seal drop create unwind cmp mutation
    m::histories(r, thorough ? 6000 : 500, 25, {8, 3, 2, 2, 1, 1, 5, 4, 0, 3, 6, 1, 0, 4}, 10);
    m::histories(r, thorough ? 3000 : 250, 25, {8, 3, 2, 2, 1, 1, 5, 4, 0, 3, 6, 1, 0, 4}, 10, true, m::F_EQ | m::F_CMP);
}
