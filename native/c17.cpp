#include "hist.hpp"
// failures
void run(h::rng& r, bool thorough) {
    //                               reset clear copy cfrom cmatch mmatch move masgn seal drop create unwind cmp mutation
    m::histories(r, thorough ? 6000 : 500, 25, {8, 1, 2, 2, 0, 0, 1, 1, 1, 2, 5, 6, 0, 8}, 80);
    m::histories(r, thorough ? 3000 : 250, 25, {8, 1, 2, 2, 0, 0, 1, 1, 1, 2, 5, 6, 0, 8}, 80, true, m::F_EQ | m::F_CMP);
}
