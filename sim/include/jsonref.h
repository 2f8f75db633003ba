// Reference JSON: a value type that keeps member order and duplicates, a strict text reader, printers for text and MessagePack, and damage.
#pragma once
#include "sim.h"
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <optional>
#include <string>
#include <utility>
#include <vector>
namespace jr {
    enum Kind { NUL, BOOL, INT, UINT, FLT, STR, ARR, OBJ };
    struct J {
        Kind k = NUL; bool b = false; long long i = 0; unsigned long long u = 0; double d = 0; std::string s;
        std::vector<J> a; std::vector<std::pair<std::string, J>> o;
    };
    inline J str(const std::string& s) { J j; j.k = STR; j.s = s; return j; }
    inline J num(long long v) { J j; if (v < 0) { j.k = INT; j.i = v; } else { j.k = UINT; j.u = (unsigned long long) v; } return j; }
    inline J boolean(bool b) { J j; j.k = BOOL; j.b = b; return j; }
    inline J arr() { J j; j.k = ARR; return j; }
    inline J obj() { J j; j.k = OBJ; return j; }

    // ---- strict reader (RFC 8259, UTF-8 checked, numbers beyond 64 bits are floats) ------------
    struct Reader {
        const std::string& t; size_t p = 0; bool ok = true;
        explicit Reader(const std::string& t) : t(t) {}
        void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) p++; }
        bool lit(const char* s) { size_t n = strlen(s); if (t.compare(p, n, s) == 0) { p += n; return true; } return ok = false; }
        static void put(std::string& o, unsigned c) {
            if (c < 0x80) o += (char) c; else if (c < 0x800) { o += (char) (0xC0 | c >> 6); o += (char) (0x80 | (c & 63)); }
            else if (c < 0x10000) { o += (char) (0xE0 | c >> 12); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
            else { o += (char) (0xF0 | c >> 18); o += (char) (0x80 | (c >> 12 & 63)); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
        }
        int hex4() { int v = 0; for (int i = 0; i < 4; i++) { if (p >= t.size()) return -1; char c = t[p++]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d < 0) return -1; v = v * 16 + d; } return v; }
        bool string(std::string& o) {
            p++;
            while (true) {
                if (p >= t.size()) return ok = false;
                unsigned char c = (unsigned char) t[p];
                if (c == '"') { p++; return true; }
                if (c < 0x20) return ok = false;
                if (c == '\\') {
                    p++; if (p >= t.size()) return ok = false;
                    char e = t[p++];
                    switch (e) {
                        case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break; case 'b': o += '\b'; break;
                        case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
                        case 'u': {
                            int v = hex4(); if (v < 0) return ok = false;
                            if (v >= 0xD800 && v <= 0xDBFF) { if (p + 1 < t.size() && t[p] == '\\' && t[p + 1] == 'u') { p += 2; int w = hex4(); if (w < 0xDC00 || w > 0xDFFF) return ok = false; put(o, 0x10000u + ((unsigned) (v - 0xD800) << 10) + (unsigned) (w - 0xDC00)); } else return ok = false; }
                            else if (v >= 0xDC00 && v <= 0xDFFF) return ok = false;
                            else put(o, (unsigned) v);
                            break;
                        }
                        default: return ok = false;
                    }
                    continue;
                }
                if (c < 0x80) { o += (char) c; p++; continue; }
                int n = c >= 0xC2 && c <= 0xDF ? 1 : c >= 0xE0 && c <= 0xEF ? 2 : c >= 0xF0 && c <= 0xF4 ? 3 : 0;
                if (!n || p + n >= t.size()) return ok = false;
                unsigned char c1 = (unsigned char) t[p + 1];
                unsigned lo = c == 0xE0 ? 0xA0 : c == 0xF0 ? 0x90 : 0x80, hi = c == 0xED ? 0x9F : c == 0xF4 ? 0x8F : 0xBF;
                if (c1 < lo || c1 > hi) return ok = false;
                for (int i = 2; i <= n; i++) { unsigned char x = (unsigned char) t[p + i]; if (x < 0x80 || x > 0xBF) return ok = false; }
                o.append(t, p, n + 1); p += n + 1;
            }
        }
        J value() {
            J j; ws();
            if (p >= t.size()) { ok = false; return j; }
            char c = t[p];
            if (c == 'n') { lit("null"); return j; }
            if (c == 't') { lit("true"); return boolean(true); }
            if (c == 'f') { lit("false"); return boolean(false); }
            if (c == '"') { j.k = STR; string(j.s); return j; }
            if (c == '[') {
                j.k = ARR; p++; ws();
                if (p < t.size() && t[p] == ']') { p++; return j; }
                while (ok) { j.a.push_back(value()); if (!ok) return j; ws(); if (p >= t.size()) { ok = false; return j; } if (t[p] == ',') { p++; continue; } if (t[p] == ']') { p++; return j; } ok = false; }
                return j;
            }
            if (c == '{') {
                j.k = OBJ; p++; ws();
                if (p < t.size() && t[p] == '}') { p++; return j; }
                while (ok) {
                    ws(); if (p >= t.size() || t[p] != '"') { ok = false; return j; }
                    std::string key; if (!string(key)) return j;
                    ws(); if (p >= t.size() || t[p] != ':') { ok = false; return j; } p++;
                    j.o.emplace_back(key, value()); if (!ok) return j;
                    ws(); if (p >= t.size()) { ok = false; return j; } if (t[p] == ',') { p++; continue; } if (t[p] == '}') { p++; return j; } ok = false;
                }
                return j;
            }
            if (c == '-' || (c >= '0' && c <= '9')) {
                size_t st = p; bool neg = c == '-', flt = false; if (neg) p++;
                auto dig = [&] { return p < t.size() && t[p] >= '0' && t[p] <= '9'; };
                if (!dig()) { ok = false; return j; }
                if (t[p] == '0') p++; else while (dig()) p++;
                if (p < t.size() && t[p] == '.') { flt = true; p++; if (!dig()) { ok = false; return j; } while (dig()) p++; }
                if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) { flt = true; p++; if (p < t.size() && (t[p] == '+' || t[p] == '-')) p++; if (!dig()) { ok = false; return j; } while (dig()) p++; }
                std::string n = t.substr(st, p - st);
                if (!flt) { errno = 0; if (neg) { j.i = strtoll(n.c_str(), nullptr, 10); j.k = INT; } else { j.u = strtoull(n.c_str(), nullptr, 10); j.k = UINT; } if (errno == ERANGE) flt = true; }
                if (flt) { j.k = FLT; j.d = strtod(n.c_str(), nullptr); if (!std::isfinite(j.d)) ok = false; }
                return j;
            }
            ok = false; return j;
        }
    };
    inline std::optional<J> read(const std::string& t) {
        Reader r(t); if (t.compare(0, 3, "\xEF\xBB\xBF") == 0) r.p = 3;
        J j = r.value(); if (!r.ok) return std::nullopt; r.ws(); if (r.p != t.size()) return std::nullopt; return j;
    }

    // ---- printers --------------------------------------------------------------------------------
    inline std::string sp() { switch (sim::choose(8, "ws")) { case 5: return " "; case 6: return "\n  "; case 7: return "\t"; default: return ""; } }
    inline void put_str(std::string& o, const std::string& s) {
        o += '"';
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
            else if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else if (c < 0x80 && sim::chance(1, 24, "escape")) { char b[8]; snprintf(b, sizeof b, "\\u%04X", c); o += b; }
            else o += (char) c;
        }
        o += '"';
    }
    inline void text(std::string& o, const J& j, bool pretty) {
        auto s = [&] { if (pretty) o += sp(); };
        switch (j.k) {
            case NUL: o += "null"; break; case BOOL: o += j.b ? "true" : "false"; break; case INT: o += std::to_string(j.i); break; case UINT: o += std::to_string(j.u); break;
            case FLT: { char b[40]; snprintf(b, sizeof b, "%.17g", j.d); o += b; if (!strpbrk(b, ".e")) o += ".0"; break; }
            case STR: put_str(o, j.s); break;
            case ARR: o += '['; for (size_t i = 0; i < j.a.size(); i++) { if (i) o += ','; s(); text(o, j.a[i], pretty); s(); } o += ']'; break;
            case OBJ: o += '{'; for (size_t i = 0; i < j.o.size(); i++) { if (i) o += ','; s(); put_str(o, j.o[i].first); s(); o += ':'; s(); text(o, j.o[i].second, pretty); s(); } o += '}'; break;
        }
    }
    inline void be(std::string& o, unsigned long long v, int n) { for (int i = n - 1; i >= 0; i--) o += (char) (v >> (8 * i) & 0xFF); }
    inline void msgpack(std::string& o, const J& j) {
        auto wide = [&](unsigned long long v) { int m = v < 256 ? 0 : v < 65536 ? 1 : v < (1ull << 32) ? 2 : 3; return m + (int) (m < 3 && sim::chance(1, 12, "wide")); };
        auto strm = [&](const std::string& s) { size_t n = s.size(); if (n < 32 && !sim::chance(1, 12, "wide")) o += (char) (0xA0 | n); else if (n < 256) { o += (char) 0xD9; be(o, n, 1); } else { o += (char) 0xDA; be(o, n, 2); } o += s; };
        switch (j.k) {
            case NUL: o += (char) 0xC0; break; case BOOL: o += (char) (j.b ? 0xC3 : 0xC2); break;
            case UINT: if (j.u < 128 && !sim::chance(1, 12, "wide")) o += (char) j.u; else { int m = wide(j.u); o += (char) (0xCC + m); be(o, j.u, 1 << m); } break;
            case INT: if (j.i >= -32) o += (char) j.i; else { int m = j.i >= -128 ? 0 : j.i >= -32768 ? 1 : j.i >= -2147483648LL ? 2 : 3; o += (char) (0xD0 + m); be(o, (unsigned long long) j.i, 1 << m); } break;
            case FLT: { o += (char) 0xCB; unsigned long long v; memcpy(&v, &j.d, 8); be(o, v, 8); break; }
            case STR: strm(j.s); break;
            case ARR: if (j.a.size() < 16 && !sim::chance(1, 12, "wide")) o += (char) (0x90 | j.a.size()); else { o += (char) 0xDC; be(o, j.a.size(), 2); } for (auto& x : j.a) msgpack(o, x); break;
            case OBJ: if (j.o.size() < 16 && !sim::chance(1, 12, "wide")) o += (char) (0x80 | j.o.size()); else { o += (char) 0xDE; be(o, j.o.size(), 2); } for (auto& [k, v] : j.o) { strm(k); msgpack(o, v); } break;
        }
    }

    // ---- damage ----------------------------------------------------------------------------------
    inline size_t nodes(const J& j) { size_t n = 1; for (auto& x : j.a) n += nodes(x); for (auto& x : j.o) n += nodes(x.second); return n; }
    inline J scalar(const std::vector<std::string>& words) {
        switch (sim::choose(11, "scalar")) {
            case 0: return num((long long) sim::choose(6, "n")); case 1: return str(words[sim::choose(words.size(), "word")]); case 2: return num(-1 - (long long) sim::choose(3, "n"));
            case 3: return boolean(sim::chance(1, 2, "b")); case 4: return J{}; case 5: return arr(); case 6: return obj();
            case 7: { J j; j.k = FLT; j.d = 1.5; return j; }
            case 8: { static const unsigned long long big[] = {4294967294ull, 4294967295ull, 4294967296ull, 2147483646ull, 2147483647ull, 2147483648ull, 18446744073709551615ull}; J j; j.k = UINT; j.u = big[sim::choose(7, "big")]; return j; }
            case 9: { static const long long low[] = {-2147483647LL, -2147483648LL, -2147483649LL, -9223372036854775807LL}; J j; j.k = INT; j.i = low[sim::choose(4, "low")]; return j; }
            default: { J a = arr(); a.a.push_back(num((long long) sim::choose(4, "n"))); if (sim::chance(1, 2, "two")) a.a.push_back(num(1)); return a; }
        }
    }
    // one structural change at the n-th node (preorder)
    inline bool damage(J& root, size_t& n, const std::vector<std::string>& words, J* parent, size_t idx) {
        if (n == 0) {
            switch (sim::choose(8, "damage")) {
                case 0: root = scalar(words); break;
                case 1: if (parent) { if (parent->k == ARR) parent->a.erase(parent->a.begin() + (long) idx); else parent->o.erase(parent->o.begin() + (long) idx); } break;
                case 2: if (parent) { if (parent->k == ARR) parent->a.insert(parent->a.begin() + (long) idx, J(root)); else { std::pair<std::string, J> c(parent->o[idx]); if (sim::chance(1, 2, "rename")) c.first = words[sim::choose(words.size(), "word")]; parent->o.insert(parent->o.begin() + (long) sim::choose(parent->o.size() + 1, "dup"), c); } } break;
                case 3: { J a = arr(); a.a.push_back(root); root = a; break; }
                case 4: if (parent && parent->k == OBJ) parent->o[idx].first = words[sim::choose(words.size(), "word")]; else root = scalar(words); break;
                case 5: if (!root.a.empty()) { J c = root.a[0]; root = c; } else if (!root.o.empty()) { J c = root.o[0].second; root = c; } else root = scalar(words); break;
                case 6: if (root.k == ARR) root.a.insert(root.a.begin() + (long) sim::choose(root.a.size() + 1, "at"), scalar(words)); else if (root.k == OBJ) root.o.insert(root.o.begin() + (long) sim::choose(root.o.size() + 1, "at"), {words[sim::choose(words.size(), "word")], scalar(words)}); else root = scalar(words); break;
                default: if (parent && parent->k == ARR && parent->a.size() > 1) { size_t o = sim::choose(parent->a.size(), "swap"); std::swap(parent->a[idx], parent->a[o]); } else if (parent && parent->k == OBJ && parent->o.size() > 1) { size_t o = sim::choose(parent->o.size(), "swap"); std::swap(parent->o[idx].second, parent->o[o].second); } break;
            }
            return true;
        }
        n--;
        for (size_t i = 0; i < root.a.size(); i++) if (damage(root.a[i], n, words, &root, i)) return true;
        for (size_t i = 0; i < root.o.size(); i++) if (damage(root.o[i].second, n, words, &root, i)) return true;
        return false;
    }
    inline void damage(J& root, const std::vector<std::string>& words) { size_t n = sim::choose(nodes(root), "node"); damage(root, n, words, nullptr, 0); }
    inline void damage_bytes(std::string& t) {
        static const char pool[] = "{}[],:\"0123456789-+.eE \\ntfu*ab\n\x01\xC3";
        size_t n = t.size(); size_t p = sim::choose(n + 1, "pos"), q = sim::choose(pool[0] ? sizeof pool - 1 : 1, "byte");
        switch (sim::choose(5, "bytedamage")) {
            case 0: if (p < n) t.erase(p, 1); break;
            case 1: if (p < n) t[p] = pool[q]; break;
            case 2: t.insert(p, 1, pool[q]); break;
            case 3: if (p < n) { size_t l = 1 + sim::choose(12, "len"); t.erase(p, l); } break;
            default: if (p < n) { size_t l = std::min<size_t>(1 + sim::choose(12, "len"), n - p); t.insert(p, std::string(t, p, l)); } break;
        }
    }
}
