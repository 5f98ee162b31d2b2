#include "dom.hpp"
// rules
void run(h::rng& r, bool thorough) {
    m::dfocus = 1u << m::D_GET | 1u << m::D_RULE | 1u << m::D_UNRULE;
    m::focus_rules = true;
    //                                  regm unregm regf unregf get rule unrule gc newo delo regc unregc look
    m::dhistories(r, thorough ? 6000 : 500, 30, {3, 1, 0, 0, 16, 6, 5, 1, 1, 1, 0, 0, 0});
}
