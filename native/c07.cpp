#include "dom.hpp"
// next implementers
void run(h::rng& r, bool thorough) {
    m::dfocus = 0; m::look_next = true;
    //                                  regm unregm regf unregf get rule unrule gc newo delo regc unregc look
    m::dhistories(r, thorough ? 6000 : 500, 30, {6, 1, 0, 0, 14, 1, 1, 0, 0, 0, 0, 0, 0});
}
