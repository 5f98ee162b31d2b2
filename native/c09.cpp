#include "dom.hpp"
// equal lists, equal types
void run(h::rng& r, bool thorough) {
    m::dfocus = 1u << m::D_GET; m::again = true;
    //                                  regm unregm regf unregf get rule unrule gc newo delo regc unregc look
    m::dhistories(r, thorough ? 8000 : 1200, 30, {3, 2, 0, 0, 20, 5, 4, 2, 2, 2, 0, 0, 0});
}
