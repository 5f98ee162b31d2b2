#include "dom.hpp"
// bad requests
void run(h::rng& r, bool thorough) {
    m::dfocus = 1u << m::D_GET;
    //                                  regm unregm regf unregf get rule unrule gc newo delo regc unregc look
    m::dhistories(r, thorough ? 6000 : 500, 30, {3, 3, 0, 0, 16, 2, 2, 1, 1, 1, 0, 0, 0});
}
