#include "dom.hpp"
// lookups
void run(h::rng& r, bool thorough) {
    m::dfocus = 1u << m::D_LOOK | 1u << m::D_REGC | 1u << m::D_UNREGC;
    //                                  regm unregm regf unregf get rule unrule gc newo delo regc unregc look
    m::dhistories(r, thorough ? 6000 : 800, 30, {8, 5, 5, 5, 3, 0, 0, 0, 0, 0, 6, 4, 8});
}
