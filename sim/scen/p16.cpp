// Reports are well-formed: any history of entries and objects gives JSON text with exactly those entries, in order, at their place; an entry that cannot be
// written (undecodable text, failing allocation) leaves no trace; and when the output device fails, what was written is a prefix of the report and the stream says so.
#include "jsonref.h"
#include <utils/json_stream.h>
#include <memory>
#include <sstream>
using jr::J;
using S = std::string;
// ---- the output device: takes bytes until it is full or broken ---------------------------------
struct Device : std::streambuf {
    S data; size_t capacity = SIZE_MAX; bool throws = false, refused = false; int mode = 0;      // mode 1: takes one byte at a time, 2: short writes
    bool put(char c) { if (data.size() >= capacity) { if (!refused) { refused = true; sim::count("fault.write_error"); sim::nontrivial(); } return false; } sim::Pause p; data.push_back(c); return true; }
    int_type overflow(int_type c) override { if (c == traits_type::eof()) return 0; if (!put((char) c)) { if (throws) throw std::runtime_error("device"); return traits_type::eof(); } return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override {
        std::streamsize k = 0; for (; k < n; k++) if (!put(s[k])) { if (throws) throw std::runtime_error("device"); break; }
        return k;
    }
    int sync() override { if (refused) return -1; return 0; }
};
// ---- values ------------------------------------------------------------------------------------
static const std::vector<S> WORDS = {"a", "result", "", "two words", "quo\"te", "back\\slash", "new\nline", "tab\t", "\xC3\xA9\xE2\x82\xAC", "{", "},", "\x01", "a", "trace"};
static const std::vector<S> BAD = {"\xFF", "ok\xC3", "\x80 tail", "mid\xE2\x82 dle"};
static S word() { if (sim::chance(1, 300, "long-word")) return S(1 + sim::choose(3000, "len"), 'w'); return WORDS[sim::choose(WORDS.size(), "word")]; }
static J gen(int depth, bool& poison, int pm) {
    switch (sim::choose(depth ? 10 : 8, "value")) {
        case 0: return jr::num((long long) sim::choose(5, "n")); case 1: return jr::str(word()); case 2: return jr::boolean(sim::chance(1, 2, "b")); case 3: return J{};
        case 4: { J j; j.k = jr::FLT; static const double d[] = {0.5, -2.25, 1e300, 1e-9, 0.1}; j.d = d[sim::choose(5, "flt")]; return j; }
        case 5: return jr::num(-1 - (long long) sim::choose(5, "n"));
        case 6: if (pm && sim::chance(1, 2, "bad")) { poison = true; return jr::str(BAD[sim::choose(BAD.size(), "badword")]); } return jr::str(word());
        case 7: { J j; j.k = jr::UINT; j.u = 18446744073709551615ull; return j; }
        case 8: { J a = jr::arr(); int n = (int) sim::choose(4, "n"); if (sim::chance(1, 200, "wide")) n = 80; for (int i = 0; i < n; i++) a.a.push_back(gen(depth - 1, poison, pm)); return a; }
        default: { J o = jr::obj(); int n = (int) sim::choose(4, "n"); for (int i = 0; i < n; i++) { S k = word(); bool dup = false; for (auto& x : o.o) dup |= x.first == k; if (!dup) o.o.push_back({k, gen(depth - 1, poison, pm)}); }
                   std::sort(o.o.begin(), o.o.end(), [](auto& a, auto& b) { return a.first < b.first; }); return o; }       // nlohmann::json keeps members sorted
    }
}
static json conv(const J& j) {
    switch (j.k) {
        case jr::NUL: return nullptr; case jr::BOOL: return j.b; case jr::INT: return j.i; case jr::UINT: return j.u; case jr::FLT: return j.d; case jr::STR: return j.s;
        case jr::ARR: { json a = json::array(); for (auto& x : j.a) a.push_back(conv(x)); return a; }
        default: { json o = json::object(); for (auto& [k, v] : j.o) o[k] = conv(v); return o; }
    }
}
static bool same(const J& a, const J& b) {
    auto num = [](const J& x) { return x.k == jr::INT || x.k == jr::UINT; };
    if (num(a) && num(b)) return a.k == jr::INT ? (b.k == jr::INT ? a.i == b.i : a.i >= 0 && (unsigned long long) a.i == b.u) : (b.k == jr::UINT ? a.u == b.u : b.i >= 0 && a.u == (unsigned long long) b.i);
    if (a.k != b.k) return false;
    switch (a.k) { case jr::NUL: return true; case jr::BOOL: return a.b == b.b; case jr::FLT: return a.d == b.d; case jr::STR: return a.s == b.s; default: break; }
    if (a.a.size() != b.a.size() || a.o.size() != b.o.size()) return false;
    for (size_t i = 0; i < a.a.size(); i++) if (!same(a.a[i], b.a[i])) return false;
    for (size_t i = 0; i < a.o.size(); i++) if (a.o[i].first != b.o[i].first || !same(a.o[i].second, b.o[i].second)) return false;
    return true;
}
static S show(const J& j) { S o; switch (j.k) { case jr::STR: return "\"" + j.s + "\""; case jr::ARR: o = "["; for (auto& x : j.a) o += show(x) + ","; return o + "]"; case jr::OBJ: o = "{"; for (auto& [k, v] : j.o) o += "\"" + k + "\":" + show(v) + ","; return o + "}"; case jr::NUL: return "null"; case jr::BOOL: return j.b ? "true" : "false"; case jr::FLT: return std::to_string(j.d); case jr::INT: return std::to_string(j.i); default: return std::to_string(j.u); } }
struct Doc { J root = jr::obj(); };
// One history; returns the documents it describes.  Decisions are taken once, then the history can be repeated on another device.
struct Op { int kind; S key; J val; bool poison; uint64_t oom; };      // 0 entry, 1 begin, 2 end, 3 entry_object, 4 close
static void apply(json_stream& js, const Op& o, const json& v) { switch (o.kind) { case 0: js.entry(o.key, v); break; case 1: js.begin_object(o.key); break; case 2: js.end_object(); break; case 3: js.entry_object(o.key, v); break; default: js.close(); } }

static void run() {
    sim::choose_environment();
    std::vector<Op> ops; std::vector<json> vals; std::vector<J> docs; bool open = false;
    size_t indent = sim::choose(4, "indent-mode"); indent = indent == 0 ? 4 : indent == 1 ? 0 : indent == 2 ? 2 : 13;
    int pm = (int) sim::choose(3, "poison-mode") == 2, fm = (int) sim::choose(4, "fault-mode");      // fm 2: allocation, 3: device
    {
        sim::Pause p; int n = (int) sim::choose(15, "ops"), depth = 0; bool large = sim::chance(1, 24, "large"), nested = large && sim::chance(1, 2, "nested"); if (large) { n = 20 + (int) sim::choose(100, "many"); sim::count("probe.large"); }
        for (int i = 0; i < n; i++) {
            Op o{}; int k = (int) sim::choose(10, "op"); if (nested && (k == 6 || k == 7 || k == 9) && sim::chance(2, 3, "deeper")) k = 4;
            o.kind = k < 4 ? 0 : k < 6 ? 1 : k < 8 ? 2 : k < 9 ? 3 : 4;
            if (o.kind == 2) { if (!depth) o.kind = 0; else depth--; }
            if (o.kind == 1) depth++; if (o.kind == 4) { if (!sim::chance(1, 2, "close")) o.kind = 0; else depth = 0; }
            if (o.kind == 0 || o.kind == 1 || o.kind == 3) { o.key = word(); if (pm && sim::chance(1, 12, "badkey")) { o.key = BAD[sim::choose(BAD.size(), "badword")]; o.poison = true; if (o.kind == 1) { depth--; } } }
            if (o.kind == 0) o.val = gen(2, o.poison, pm);
            if (o.kind == 3) { o.val = gen(2, o.poison, pm); if (sim::chance(3, 4, "force-object") && o.val.k != jr::OBJ) { J x = jr::obj(); x.o.push_back({"inner", o.val}); x.o.push_back({"zz", jr::num(1)}); o.val = x; } }
            if (fm == 2 && (o.kind == 0 || o.kind == 3 || o.kind == 1) && sim::chance(1, 3, "oom")) o.oom = 1 + sim::choose(8, "kth");
            ops.push_back(o); vals.push_back(conv(o.val));
        }
    }
    size_t capacity = SIZE_MAX; bool exc = false, thr = false;
    if (fm == 3) { capacity = sim::choose(sim::chance(1, 20, "roomy") ? 4000 : 160, "capacity"); exc = sim::chance(1, 3, "exceptions"); thr = sim::chance(1, 6, "device-throws"); }
    std::vector<char> done(ops.size(), 0); int64_t live = sim::live_blocks(); Device dev; dev.capacity = capacity; dev.throws = thr; bool gave_up = false; int open_objects = 0;
    {
        std::ostream out(&dev); if (exc) out.exceptions(std::ios::badbit | std::ios::failbit);
        { auto js = std::make_unique<json_stream>(indent, out);
          for (size_t i = 0; i < ops.size(); i++) {
            auto& o = ops[i]; bool threw = false, oom = false;
            if (o.kind == 2 && !open_objects) continue;       // the matching begin_object failed
            if (o.oom) sim::arm_alloc_failure(o.oom);
            try { apply(*js, o, vals[i]); } catch (const std::bad_alloc&) { oom = true; } catch (const json::exception&) { threw = true; } catch (const std::ios_base::failure&) { gave_up = true; } catch (const std::runtime_error&) { gave_up = true; }
            bool fired = o.oom && sim::alloc_failure_fired(); if (o.oom) sim::arm_alloc_failure(0);
            if (fired) { sim::count("fault.alloc"); sim::nontrivial(); }
            SIM_CHECK(oom == fired, "swallowed-bad_alloc", "a failed allocation was not reported by operation %zu", i);
            if (gave_up) { SIM_CHECK(dev.refused, "invented-failure", "operation %zu failed although the device works", i); break; }
            if (threw) { SIM_CHECK(o.poison, "rejected", "operation %zu rejects a value that JSON can express", i); sim::count("fault.undecodable"); sim::nontrivial(); }
            else if (o.poison && !oom) { SIM_CHECK(false, "undecodable-accepted", "operation %zu writes text that is no UTF-8", i); }
            done[i] = !threw && !oom; if (done[i]) open_objects = o.kind == 1 ? open_objects + 1 : o.kind == 2 ? open_objects - 1 : o.kind == 4 ? 0 : open_objects;
            sim::ev("op", o.kind, done[i], dev.data.size());
            if (sim::verbose()) { sim::Pause p; sim::note("%s(%s, %s)%s", o.kind == 0 ? "entry" : o.kind == 1 ? "begin_object" : o.kind == 2 ? "end_object" : o.kind == 3 ? "entry_object" : "close", o.key.c_str(), show(o.val).c_str(), done[i] ? "" : " fails"); }
          }
          bool explicit_close = sim::chance(1, 2, "explicit-close"); if (explicit_close && !gave_up) { try { js->close(); } catch (const std::ios_base::failure&) { gave_up = true; } catch (const std::runtime_error&) { gave_up = true; } }
          js.reset(); }
        if (dev.refused) SIM_CHECK(!out.good(), "failure-hidden", "the device refused data, but the stream does not show it");
        else SIM_CHECK(out.good(), "invented-failure", "the stream is bad although the device works");
    }
    sim::check_heap(); SIM_CHECK(sim::live_blocks() == live, "leak", "%ld blocks are lost", (long) (sim::live_blocks() - live));
    sim::Pause p;
    // what should be there
    {
        size_t i = 0;      // the path is kept as indices, because vectors move
        std::vector<size_t> pos; J cur; auto node = [&]() -> J& { J* x = &cur; for (size_t k : pos) x = &x->o[k].second; return *x; };
        auto begin_doc = [&] { if (!open) { cur = jr::obj(); open = true; pos.clear(); } };
        for (i = 0; i < ops.size(); i++) {
            auto& o = ops[i]; if (!done[i]) { if (gave_up) break; continue; }
            if (o.kind == 0 || o.kind == 3) { begin_doc(); node().o.push_back({o.key, o.val}); }
            else if (o.kind == 1) { begin_doc(); node().o.push_back({o.key, jr::obj()}); pos.push_back(node().o.size() - 1); }
            else if (o.kind == 2) { if (!pos.empty()) pos.pop_back(); else if (open) { docs.push_back(cur); open = false; } }
            else if (open) { docs.push_back(cur); open = false; pos.clear(); }
        }
        if (open) docs.push_back(cur);
    }
    if (dev.refused) {       // compare with the same history on a device that works
        Device ok; { std::ostream out(&ok); json_stream js(indent, out); for (size_t i = 0; i < ops.size(); i++) { if (ops[i].poison || ops[i].oom) continue; apply(js, ops[i], vals[i]); } }
        bool clean = true; for (auto& o : ops) clean &= !o.poison;
        if (clean) SIM_CHECK(ok.data.compare(0, dev.data.size(), dev.data) == 0, "not-a-prefix", "what was written before the device failed is not a prefix of the report");
        sim::count("probe.prefix"); return;
    }
    jr::Reader r(dev.data); size_t k = 0;
    for (r.ws(); r.p < dev.data.size(); r.ws(), k++) {
        J j = r.value();
        SIM_CHECK(r.ok, "malformed", "document %zu of the report is not well-formed JSON: %s", k, dev.data.c_str());
        SIM_CHECK(k < docs.size(), "extra-document", "the report has more documents than expected: %s", dev.data.c_str());
        SIM_CHECK(same(j, docs[k]), "content", "the report says %s, expected %s", show(j).c_str(), show(docs[k]).c_str());
    }
    SIM_CHECK(k == docs.size(), "missing-document", "the report has %zu documents, expected %zu: %s", k, docs.size(), dev.data.c_str());
    sim::evs("text", dev.data); if (k > 1) sim::count("probe.several_documents"); for (auto& d : docs) for (auto& [kk, v] : d.o) if (v.k == jr::OBJ && v.o.empty()) sim::count("probe.empty_object");
    if (ops.size() > 2) sim::nontrivial();
}
extern const sim::Property SIM_PROPERTY{"P16", run, nullptr};
