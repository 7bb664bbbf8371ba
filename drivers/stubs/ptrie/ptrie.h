// Stand-in for the external ptrie library (not installed here): an exact set / map of byte strings with stable ids.
// It is a trusted replacement of a dependency; nothing of verifypn itself is replaced.
#pragma once
#include <map>
#include <vector>
#include <string>
#include <cstring>
#include <cstdint>
#include <utility>
#include <limits>
namespace ptrie {
    typedef unsigned int uint;
    typedef unsigned char uchar;
    template<typename KEY = unsigned char, typename I = size_t, size_t A = 17, size_t B = 128, size_t C = 4>
    class set {
    protected:
        std::map<std::vector<KEY>, size_t> _ids;
        std::vector<const std::vector<KEY>*> _keys;
    public:
        std::pair<bool, size_t> insert(const KEY* d, size_t n) {
            auto r = _ids.emplace(std::vector<KEY>(d, d + n), _keys.size());
            if (r.second) _keys.push_back(&r.first->first);
            return {r.second, r.first->second};
        }
        std::pair<bool, size_t> insert(KEY k) { return insert(&k, 1); }
        std::pair<bool, size_t> insert(const std::vector<KEY>& k) { return insert(k.data(), k.size()); }
        std::pair<bool, size_t> insert(const std::pair<KEY*, size_t>& k) { return insert(k.first, k.second); }
        std::pair<bool, size_t> exists(const KEY* d, size_t n) const {
            auto it = _ids.find(std::vector<KEY>(d, d + n));
            if (it == _ids.end()) return {false, std::numeric_limits<size_t>::max()};
            return {true, it->second};
        }
        std::pair<bool, size_t> exists(KEY k) const { return exists(&k, 1); }
        std::pair<bool, size_t> exists(const std::vector<KEY>& k) const { return exists(k.data(), k.size()); }
        size_t unpack(size_t id, KEY* dst) const { auto& k = *_keys[id]; std::copy(k.begin(), k.end(), dst); return k.size(); }
        std::vector<KEY> unpack(size_t id) const { return *_keys[id]; }
        size_t size() const { return _keys.size(); }
    };
    template<typename KEY = unsigned char, typename I = size_t, size_t A = 17, size_t B = 128, size_t C = 4>
    class set_stable : public set<KEY, I, A, B, C> {};
    template<typename KEY, typename T, typename I = size_t, size_t A = 17, size_t B = 128, size_t C = 4>
    class map : public set<KEY, I, A, B, C> {
        std::map<size_t, T> _data;
    public:
        T& get_data(size_t id) { return _data[id]; }
        T& operator[](const std::vector<KEY>& k) { return _data[this->insert(k).second]; }
        T& operator[](KEY k) { return _data[this->insert(k).second]; }
    };
}
