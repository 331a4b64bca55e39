// The system robin_map plus the few methods of the drjit fork.
#pragma once
#define robin_map robin_map_base
#include "/usr/include/tsl/robin_map.h"
#undef robin_map
namespace tsl {
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>, class A = std::allocator<std::pair<K, V>>,
          bool S = false, class G = tsl::rh::power_of_two_growth_policy<2>>
struct robin_map : robin_map_base<K, V, H, E, A, S, G> {
    using Base = robin_map_base<K, V, H, E, A, S, G>;
    using Base::Base;
    template <class I> void erase_fast(I it) { Base::erase(it); }
    template <class... Args> auto try_emplace_hash(size_t, const K &k, Args &&...a) { return Base::try_emplace(k, std::forward<Args>(a)...); }
};
}
