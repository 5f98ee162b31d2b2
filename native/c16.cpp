#include "hist.hpp"
// life cycle and memory balance
void run(h::rng& r, bool thorough) {
    //                               reset clear copy cfrom cmatch mmatch move masgn seal drop create unwind cmp mutation
    m::histories(r, thorough ? 6000 : 500, 25, {8, 3, 2, 2, 0, 0, 2, 2, 0, 4, 6, 1, 0, 6}, 10);
    m::histories(r, thorough ? 3000 : 250, 25, {8, 3, 2, 2, 0, 0, 2, 2, 0, 4, 6, 1, 0, 6}, 10, true, m::F_EQ | m::F_CMP);
}
