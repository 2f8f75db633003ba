// Stand-in for the third-party "ptrie" library (github.com/petergjoel/ptrie), which PDAAAL fetches
// from the network at configure time and which is absent from this sandbox.  It implements the part
// of the interface PDAAAL uses: stable, densely numbered sets and maps keyed by sequences of
// trivially representable elements.  It is a STUB component of the simulation (see DESIGN.md).
#pragma once
#include <cassert>
#include <cstddef>
#include <cstring>
#include <functional>
#include <memory>
#include <stack>
#include <map>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace ptrie {
    template<typename KEY>
    struct byte_iterator {
        static unsigned char& access(KEY* data, size_t id) { return reinterpret_cast<unsigned char*>(data)[id]; }
        static const unsigned char& const_access(const KEY* data, size_t id) { return reinterpret_cast<const unsigned char*>(data)[id]; }
        static constexpr size_t element_size() { return sizeof(KEY); }
        static constexpr bool continious() { return true; }
    };

    namespace stub_detail {
        template<typename KEY>
        std::string encode(const KEY* data, size_t n) {
            std::string s;
            const size_t es = byte_iterator<KEY>::element_size();
            s.reserve(n * es);
            for (size_t i = 0; i < n; ++i)
                for (size_t b = 0; b < es; ++b)
                    s.push_back(static_cast<char>(byte_iterator<KEY>::const_access(data + i, b)));
            return s;
        }
    }

    template<typename KEY>
    class set_stable {
    public:
        set_stable() = default;
        std::pair<bool, size_t> insert(const KEY* data, size_t n) { return ins(stub_detail::encode<KEY>(data, n)); }
        std::pair<bool, size_t> insert(const std::pair<const KEY*, size_t>& d) { return insert(d.first, d.second); }
        std::pair<bool, size_t> insert(const KEY& d) { return insert(&d, 1); }
        std::pair<bool, size_t> insert(const std::vector<KEY>& d) { return insert(d.data(), d.size()); }
        std::pair<bool, size_t> exists(const KEY* data, size_t n) const { return ex(stub_detail::encode<KEY>(data, n)); }
        std::pair<bool, size_t> exists(const std::pair<const KEY*, size_t>& d) const { return exists(d.first, d.second); }
        std::pair<bool, size_t> exists(const KEY& d) const { return exists(&d, 1); }
        std::pair<bool, size_t> exists(const std::vector<KEY>& d) const { return exists(d.data(), d.size()); }
        bool erase(const KEY* data, size_t n) { return er(stub_detail::encode<KEY>(data, n)); }
        bool erase(const std::pair<const KEY*, size_t>& d) { return erase(d.first, d.second); }
        bool erase(const KEY& d) { return erase(&d, 1); }
        bool erase(const std::vector<KEY>& d) { return erase(d.data(), d.size()); }
        [[nodiscard]] size_t size() const { return _map.size(); }
        size_t unpack(size_t id, KEY* dest) const {
            const std::string& s = _keys.at(id);
            const size_t es = byte_iterator<KEY>::element_size();
            const size_t n = s.size() / es;
            for (size_t i = 0; i < n; ++i)
                for (size_t b = 0; b < es; ++b)
                    byte_iterator<KEY>::access(dest + i, b) = static_cast<unsigned char>(s[i * es + b]);
            return n;
        }
        std::vector<KEY> unpack(size_t id) const {
            const size_t es = byte_iterator<KEY>::element_size();
            std::vector<KEY> res(_keys.at(id).size() / es);
            if (!res.empty()) unpack(id, res.data());
            return res;
        }
    protected:
        std::pair<bool, size_t> ins(std::string&& s) {
            auto it = _map.find(s);
            if (it != _map.end()) return {false, it->second};
            const size_t id = _keys.size();
            _keys.push_back(s);
            try { _map.emplace(std::move(s), id); } catch (...) { _keys.pop_back(); throw; }
            return {true, id};
        }
        std::pair<bool, size_t> ex(const std::string& s) const {
            auto it = _map.find(s);
            if (it == _map.end()) return {false, 0};
            return {true, it->second};
        }
        bool er(const std::string& s) { return _map.erase(s) > 0; }
        std::map<std::string, size_t> _map;
        std::vector<std::string> _keys;
    };

    template<typename KEY> using set = set_stable<KEY>;

    template<typename KEY, typename T>
    class map : public set_stable<KEY> {
        using base = set_stable<KEY>;
    public:
        map() = default;
        T& get_data(size_t id) { grow(id); return _data[id]; }
        const T& get_data(size_t id) const { return _data.at(id); }
        template<typename... Args> std::pair<bool, size_t> insert(Args&&... args) {
            grow(this->_keys.size()); // Before the key is there: a failed insertion inserts nothing.
            return base::insert(std::forward<Args>(args)...);
        }
        template<typename K> T& operator[](const K& key) { return get_data(insert(key).second); }
    private:
        void grow(size_t id) { if (_data.size() <= id) _data.resize(id + 1); }
        std::vector<T> _data;
    };
}
