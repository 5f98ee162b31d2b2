#include "hist.hpp"
// comparison
void run(h::rng& r, bool thorough) {
    m::focus = 1u << m::COMPARE;
    //                               reset clear copy cfrom cmatch mmatch move masgn seal drop create unwind cmp mutation
    m::histories(r, thorough ? 6000 : 500, 25, {3, 1, 5, 5, 3, 2, 1, 1, 0, 1, 6, 0, 15, 1}, 5);
    m::histories(r, thorough ? 3000 : 250, 25, {3, 1, 5, 5, 3, 2, 1, 1, 0, 1, 6, 0, 15, 1}, 5, true, m::F_EQ | m::F_CMP);
}
