#include "dom.hpp"
// feature tables
void run(h::rng& r, bool thorough) {
    m::dfocus = 1u << m::D_GET; m::look_features = true;
    //                                  regm unregm regf unregf get rule unrule gc newo delo regc unregc look
    m::dhistories(r, thorough ? 6000 : 500, 30, {6, 1, 0, 0, 14, 1, 1, 0, 0, 0, 0, 0, 0});
}
