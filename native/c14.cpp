#include "dom.hpp"
// unregistration and garbage
void run(h::rng& r, bool thorough) {
    m::dfocus = 1u << m::D_GC | 1u << m::D_UNREGM | 1u << m::D_NEWO | 1u << m::D_DELO;
    //                                  regm unregm regf unregf get rule unrule gc newo delo regc unregc look
    m::dhistories(r, thorough ? 6000 : 500, 30, {6, 6, 0, 0, 16, 2, 2, 5, 6, 5, 0, 0, 0});
}
