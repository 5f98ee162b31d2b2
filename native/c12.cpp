#include "dom.hpp"
// registration
void run(h::rng& r, bool thorough) {
    m::dfocus = 1u << m::D_REGM | 1u << m::D_REGF | 1u << m::D_UNREGM | 1u << m::D_UNREGF;
    //                                  regm unregm regf unregf get rule unrule gc newo delo regc unregc look
    m::dhistories(r, thorough ? 6000 : 800, 30, {12, 9, 6, 6, 3, 0, 0, 0, 1, 1, 2, 2, 0});
}
