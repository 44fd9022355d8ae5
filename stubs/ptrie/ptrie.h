// Contract stand-in for the ptrie library (github.com/petergjoel/ptrie), which is not available offline.
// A set/map of KEY strings: insert returns (is-new, id), ids are dense and stable, unpack(id) yields the key back.
#pragma once
#include <vector>
#include <cstdint>
#include <cstddef>
#include <cassert>
#include <utility>
#include <limits>
namespace ptrie {
typedef unsigned char uchar;
typedef unsigned int uint;
template <typename KEY = unsigned char, size_t HEAP = 17, size_t SPLIT = 128, size_t ALLOC = 4, typename T = void, typename I = size_t>
class standin {
protected:
    std::vector<std::vector<KEY>> _keys;
    std::pair<bool, size_t> find(const KEY* d, size_t n) const {
        for (size_t i = 0; i < _keys.size(); ++i) {
            if (_keys[i].size() != n) continue;
            uint64_t diff = 0; const KEY* k = _keys[i].data();
            for (size_t j = 0; j < n; ++j) diff |= (uint64_t)(k[j] ^ d[j]);
            if (diff == 0) return {true, i};
        }
        return {false, std::numeric_limits<size_t>::max()};
    }
public:
    std::pair<bool, size_t> insert(const KEY* d, size_t n) { auto r = find(d, n); if (r.first) return {false, r.second}; _keys.emplace_back(d, d + n); return {true, _keys.size() - 1}; }
    std::pair<bool, size_t> insert(const KEY d) { return insert(&d, 1); }
    std::pair<bool, size_t> insert(const std::vector<KEY>& v) { return insert(v.data(), v.size()); }
    std::pair<bool, size_t> insert(const std::pair<KEY*, size_t>& v) { return insert(v.first, v.second); }
    std::pair<bool, size_t> exists(const KEY* d, size_t n) const { return find(d, n); }
    std::pair<bool, size_t> exists(const KEY d) const { return find(&d, 1); }
    std::pair<bool, size_t> exists(const std::vector<KEY>& v) const { return find(v.data(), v.size()); }
    size_t unpack(size_t id, KEY* dst) const { auto& k = _keys[id]; for (size_t i = 0; i < k.size(); ++i) dst[i] = k[i]; return k.size(); }
    std::vector<KEY> unpack(size_t id) const { return _keys[id]; }
    size_t size() const { return _keys.size(); }
};
template <typename KEY = unsigned char, size_t HEAP = 17, size_t SPLIT = 128, size_t ALLOC = 4, typename I = size_t> class set : public standin<KEY> {};
template <typename KEY = unsigned char, typename I = size_t, size_t HEAP = 17, size_t SPLIT = 128, size_t ALLOC = 4> class set_stable : public standin<KEY> {};
template <typename KEY, typename T, typename I = size_t, size_t HEAP = 17, size_t SPLIT = 128, size_t ALLOC = 4>
class map : public standin<KEY> {
    std::vector<T> _data;
    void grow() { while (_data.size() < this->_keys.size()) _data.emplace_back(); }
public:
    template <typename... A> std::pair<bool, size_t> insert(A&&... a) { auto r = standin<KEY>::insert(std::forward<A>(a)...); grow(); return r; }
    T& get_data(size_t id) { grow(); return _data[id]; }
    const T& get_data(size_t id) const { return _data[id]; }
    T& operator[](KEY k) { return get_data(standin<KEY>::insert(k).second); }
    T& operator[](const std::vector<KEY>& k) { return get_data(standin<KEY>::insert(k).second); }
};
}
