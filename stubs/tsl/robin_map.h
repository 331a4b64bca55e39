/* Declaration-only model of the drjit fork of tsl::robin_map (ext/robin_map is
   absent from this checkout).  Only what the analysis needs to type-check. */
#pragma once
#include <utility>
#include <functional>
#include <memory>
#include <cstddef>
#include <cmath>
#include <limits>
#include <algorithm>
#include <cassert>
#include <cstring>
#include <cstdint>
#include <exception>
#include <iterator>
#include <memory>
#include <new>
#include <stdexcept>
#include <tuple>
#include <type_traits>
#include <vector>
#include <string>
namespace tsl {
namespace detail_robin_hash { template <class V, bool S> struct bucket_entry { uint32_t h; short d; bool l; typename std::aligned_storage<sizeof(V), alignof(V)>::type v; }; }
namespace rh { template <size_t N> struct power_of_two_growth_policy {}; struct prime_growth_policy {}; }
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>,
          class A = std::allocator<std::pair<K, V>>, bool Store = false, class G = rh::power_of_two_growth_policy<2>>
struct robin_map {
    using key_type = K; using mapped_type = V; using value_type = std::pair<K, V>;
    struct const_iterator {
        const value_type &operator*() const; const value_type *operator->() const;
        const K &key() const; V &value() const;
        const_iterator &operator++(); const_iterator operator++(int);
        friend bool operator==(const const_iterator &, const const_iterator &) { return true; }
        friend bool operator!=(const const_iterator &, const const_iterator &) { return true; }
    };
    struct iterator : const_iterator { iterator &operator++(); iterator operator++(int); };
    robin_map(); explicit robin_map(size_t);
    robin_map(const robin_map &); robin_map(robin_map &&) noexcept;
    robin_map &operator=(const robin_map &); robin_map &operator=(robin_map &&) noexcept;
    ~robin_map();
    iterator begin(); iterator end(); const_iterator begin() const; const_iterator end() const;
    const_iterator cbegin() const; const_iterator cend() const;
    bool empty() const; size_t size() const; void clear(); void reserve(size_t); void rehash(size_t);
    void swap(robin_map &);
    template <class KK> iterator find(const KK &); template <class KK> const_iterator find(const KK &) const;
    template <class KK> iterator find(const KK &, size_t); template <class KK> const_iterator find(const KK &, size_t) const;
    template <class KK> size_t count(const KK &) const; template <class KK> size_t count(const KK &, size_t) const;
    template <class KK> bool contains(const KK &) const;
    template <class KK> V &at(const KK &); template <class KK> const V &at(const KK &) const;
    V &operator[](const K &); V &operator[](K &&);
    std::pair<iterator, bool> insert(const value_type &); std::pair<iterator, bool> insert(value_type &&);
    template <class KK, class M> std::pair<iterator, bool> insert_or_assign(KK &&, M &&);
    template <class... Args> std::pair<iterator, bool> emplace(Args &&...);
    template <class... Args> std::pair<iterator, bool> try_emplace(const K &, Args &&...);
    template <class... Args> std::pair<iterator, bool> try_emplace(K &&, Args &&...);
    template <class... Args> std::pair<iterator, bool> try_emplace_hash(size_t, const K &, Args &&...);
    iterator erase(iterator); iterator erase(const_iterator); size_t erase(const K &); size_t erase(const K &, size_t);
    void erase_fast(iterator);
    size_t bucket_count() const; float load_factor() const; float max_load_factor() const; void max_load_factor(float);
    H hash_function() const;
};
template <class K, class H = std::hash<K>, class E = std::equal_to<K>, class A = std::allocator<K>, bool Store = false,
          class G = rh::power_of_two_growth_policy<2>>
struct robin_set {
    struct iterator { const K &operator*() const; const K *operator->() const; iterator &operator++(); iterator operator++(int);
        friend bool operator==(const iterator &, const iterator &) { return true; }
        friend bool operator!=(const iterator &, const iterator &) { return true; } };
    using const_iterator = iterator;
    robin_set(); robin_set(const robin_set &); ~robin_set(); robin_set &operator=(const robin_set &);
    iterator begin() const; iterator end() const; bool empty() const; size_t size() const; void clear(); void reserve(size_t);
    std::pair<iterator, bool> insert(const K &); template <class... Args> std::pair<iterator, bool> emplace(Args &&...);
    iterator find(const K &) const; size_t count(const K &) const; size_t erase(const K &); iterator erase(iterator);
};
}
