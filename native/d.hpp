// helpers for harnesses which use the whole library
#pragma once
#include "h.hpp"
#include <dynamix/domain.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/object.hpp>
#include <dynamix/object_of.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/mutate_to.hpp>
#include <dynamix/mixin_info_data.hpp>
#include <dynamix/declare_mixin.hpp>
#include <dynamix/define_mixin.hpp>
#include <dynamix/domain_settings_builder.hpp>
#include <dynamix/exception.hpp>
#include <dynamix/feature_info_data.hpp>
#include <memory>
#include <algorithm>

// a mixin class with an info of its own (not registered anywhere yet)
#define MIXIN(T) \
    inline dynamix::util::mixin_info_data& data_of(const T*) { static dynamix::util::mixin_info_data d; static dynamix::util::mixin_info_data_builder<T> b(d, std::string_view(#T)); return d; } \
    inline const dynamix::mixin_info& _dynamix_get_mixin_info(const T*) { return data_of((const T*)nullptr).info; }

namespace h {
template <typename T> dynamix::mixin_info& info() { return data_of((const T*)nullptr).info; }
template <typename F> bool throws(F f) {
    try { f(); } catch (...) { return true; }
    return false;
}
}
