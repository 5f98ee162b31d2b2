#include "hist.hpp"
// moves and sealing
void run(h::rng& r, bool thorough) {
    //                               reset clear copy cfrom cmatch mmatch move masgn seal drop create unwind cmp mutation
    m::histories(r, thorough ? 6000 : 500, 25, {4, 3, 1, 3, 1, 1, 8, 10, 4, 3, 8, 1, 0, 3}, 10);
    m::histories(r, thorough ? 3000 : 250, 25, {4, 3, 1, 3, 1, 1, 8, 10, 4, 3, 8, 1, 0, 3}, 10, true, m::F_EQ | m::F_CMP);
}
