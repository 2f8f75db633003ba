// The command-line tool, whole: its report and the files it writes are the truth about the problem it was given, or it fails - whatever happens to its files, its output and its clock.
#include "disk.h"
#include "headers.h"
#include "jsonref.h"
#include <sstream>
int pdaaal_main(int argc, const char** argv);
using jr::J; using S = std::string; using model::Vec;
static const std::vector<std::string> NAMES = [] { std::vector<std::string> v{"p0", "Zero", "q", "end", "r5"}; while (v.size() < 60) v.push_back("s" + std::to_string(v.size())); return v; }();
// ---- standard streams --------------------------------------------------------------------------
struct In : std::streambuf { S data; size_t pos = 0; char buf[32]; int_type underflow() override { sim::Pause p; disk::delay(&disk::read_time()); if (pos >= data.size()) return traits_type::eof(); size_t n = std::min<size_t>(1 + (disk::jitter() ? sim::choose(32, "chunk") : 31), data.size() - pos); memcpy(buf, data.data() + pos, n); pos += n; setg(buf, buf, buf + n); return traits_type::to_int_type(buf[0]); } };
struct Out : std::streambuf {
    S data; size_t capacity = SIZE_MAX; bool refused = false;
    bool put(char c) { if (data.size() >= capacity) { if (!refused) { refused = true; sim::count("fault.stdout_error"); sim::nontrivial(); } return false; } sim::Pause p; data.push_back(c); return true; }
    int_type overflow(int_type c) override { if (c == traits_type::eof()) return 0; return put((char) c) ? c : traits_type::eof(); }
    std::streamsize xsputn(const char* s, std::streamsize n) override { sim::Pause p; sim::clock_advance(1000000); disk::io_time() += 1000000; std::streamsize k = 0; while (k < n && put(s[k])) k++; return k; }
};
struct Result { int code = 0; S out, err; int64_t io = 0, total = 0, rd = 0, op = 0; bool aborted = false, refused = false; };
static Result run_tool(const std::vector<S>& args, const S& input, size_t stdout_space) {
    In in; Out out, err; { sim::Pause p; in.data = input; } out.capacity = stdout_space;
    std::vector<const char*> argv{"pdaaal"}; for (auto& a : args) argv.push_back(a.c_str());
    if (sim::verbose()) { sim::Pause p; S s; for (auto& a : args) s += " " + a; sim::note("$ pdaaal%s", s.c_str()); }
    auto *c0 = std::cin.rdbuf(&in), *c1 = std::cout.rdbuf(&out), *c2 = std::cerr.rdbuf(&err); std::cin.clear(); std::cout.clear(); std::cerr.clear();
    disk::io_time() = disk::read_time() = disk::open_time() = 0; int64_t t0 = sim::clock_mono(); volatile bool aborted = false; auto& e = disk::ex(); e.code = 0; e.active = true;
    if (setjmp(e.env) == 0) { try { e.code = pdaaal_main((int) argv.size(), argv.data()); } catch (const std::exception& x) { aborted = true; e.code = 134; sim::Pause p; err.data += S("uncaught: ") + x.what(); } }
    e.active = false; std::cin.rdbuf(c0); std::cout.rdbuf(c1); std::cerr.rdbuf(c2);
    sim::Pause p; Result r; r.code = e.code; r.out = out.data; r.err = err.data; r.io = disk::io_time(); r.rd = disk::read_time(); r.op = disk::open_time(); r.total = sim::clock_mono() - t0; r.aborted = aborted; r.refused = out.refused; disk::handles().clear();
    if (sim::verbose()) { sim::note("exit code %d%s", r.code, r.aborted ? " (aborted)" : ""); sim::note("stdout: %s", r.out.c_str()); if (!r.err.empty()) sim::note("stderr: %s", r.err.c_str()); }
    sim::ev("exit", (uint64_t) r.code, r.out.size(), r.err.size()); return r;
}
// ---- documents -----------------------------------------------------------------------------------
static J state_json(bool names, int s, int ns) { if (s < ns) return names ? jr::str(NAMES[s]) : jr::num(s); return jr::num(s + 100); }
static J aut_json(const model::Inst& I, const model::Aut& a, bool names) {
    J o = jr::obj(), acc = jr::arr(), ed = jr::arr(), in = jr::arr();
    for (int i = 0; i < a.n; i++) if (a.acc[i]) acc.a.push_back(state_json(names, i, I.ns));
    for (auto& [f, l, t] : a.edges) { J e = jr::arr(); e.a = {state_json(names, f, I.ns), jr::str(rx::name(l)), state_json(names, t, I.ns)}; ed.a.push_back(e); }
    for (int i = 0; i < I.ns; i++) in.a.push_back(state_json(names, i, I.ns));
    o.o = {{"initial", in}, {"accepting", acc}, {"edges", ed}}; return o;
}
static J pda_json(const model::Inst& I, bool names, int wt) {
    std::vector<J> st(I.ns, jr::obj());
    for (auto& r : I.rules) {
        std::vector<S> pre; if (r.wild) pre.push_back("*"); else for (int p : r.pre) pre.push_back(rx::name(p));
        for (auto& p : pre) {
            J q = jr::obj(); q.o.push_back({"to", state_json(names, r.to, I.ns)});
            switch (r.op) { case model::POP: q.o.push_back({"pop", jr::str("")}); break; case model::SWAP: q.o.push_back({"swap", jr::str(rx::name(r.op_label))}); break; case model::PUSH: q.o.push_back({"push", jr::str(rx::name(r.op_label))}); break; default: q.o.push_back({"swap", jr::str(p)}); }
            if (wt == 1 || wt == 2) q.o.push_back({"weight", jr::num(r.w.empty() ? 0 : r.w[0])});
            if (wt >= 3) { J v = jr::arr(); for (auto x : r.w) v.a.push_back(jr::num(x)); q.o.push_back({"weight", v}); }
            auto& s = st[r.from].o; size_t at = 0; while (at < s.size() && s[at].first != p) at++;
            if (at == s.size()) { J a = jr::arr(); a.a.push_back(q); s.push_back({p, a}); } else s[at].second.a.push_back(q);
        }
    }
    J states; if (names) { states = jr::obj(); for (int i = 0; i < I.ns; i++) states.o.push_back({NAMES[i], st[i]}); } else { states = jr::arr(); for (auto& s : st) states.a.push_back(s); }
    J o = jr::obj(); o.o.push_back({"states", states}); return o;
}
static rx::P printable(const rx::P& n) {      // the text syntax has no symbol for the empty word inside an alternative
    if (n->k == rx::ALT) { std::vector<rx::P> c; bool eps = false; for (auto& x : n->c) if (x->k == rx::EPS) eps = true; else c.push_back(printable(x)); rx::P r = c.size() == 1 ? c[0] : rx::mk(rx::ALT, c); return eps ? rx::mk(rx::OPT, {r}) : r; }
    auto m = std::make_shared<rx::Node>(*n); for (auto& x : m->c) x = printable(x); return m;
}
static S aut_text(const headers::Prob& p, bool initial, bool names) {
    S s; auto& st = initial ? p.initial : p.accepting; auto re = printable(initial ? p.ri : p.rf);
    auto list = [&](size_t a, size_t b) { S t; for (size_t i = a; i < b; i++) t += (i > a ? "," : "") + (names ? S(NAMES[st[i]]) : std::to_string(st[i])); return b - a == 1 ? t : "[" + t + "]"; };
    if (st.size() > 1 && sim::chance(1, 3, "union")) { size_t k = 1 + sim::choose(st.size() - 1, "cut"); s = "<" + list(0, k) + ", " + rx::print(*re) + "> | <" + list(k, st.size()) + ", " + rx::print(*re) + ">"; }
    else s = "< " + list(0, st.size()) + " , " + rx::print(*re) + " >";
    return s;
}
static const J* get(const J& o, const char* k) { for (auto& [n, v] : o.o) if (n == k) return &v; return nullptr; }
static Vec vec_json(const J& j) { Vec v; if (j.k == jr::ARR) { for (auto& x : j.a) v.push_back(x.k == jr::INT ? x.i : (long long) x.u); } else v.push_back(j.k == jr::INT ? j.i : (long long) j.u); return model::norm(v); }

// The numbers the tool gives to named states: in the order in which the document mentions them (the report's traces use these numbers, as the README shows).
static std::vector<int> numbering(const J& states, int ns) {
    std::vector<int> ids; auto add = [&](const S& n) { for (int i = 0; i < ns; i++) if (n == NAMES[i] && std::find(ids.begin(), ids.end(), i) == ids.end()) ids.push_back(i); };
    if (states.k != jr::OBJ) { for (int i = 0; i < ns; i++) ids.push_back(i); return ids; }
    for (auto& [n, st] : states.o) { add(n); for (auto& [l, rules] : st.o) { if (auto* t = get(rules, "to")) add(t->s); for (auto& r : rules.a) if (auto* t = get(r, "to")) add(t->s); } }
    return ids;
}
struct Problem { headers::Prob p; bool names; int wt, engine, trace; std::vector<int> ids; };
// the report of a run that claims success
static void judge(const Problem& q, const Result& r, bool silent, const char* who) {
    sim::Pause pause; auto& I = q.p.I;
    if (silent && !q.engine) { SIM_CHECK(r.out.empty(), "silent", "%s: output although nothing was asked: %s", who, r.out.c_str()); return; }
    auto d = jr::read(r.out); SIM_CHECK(d && d->k == jr::OBJ, "report-malformed", "%s: the report is not a JSON object: %s", who, r.out.c_str());
    auto want_keys = [&] { std::set<S> k; if (!silent) k.insert("parsing-duration"); if (q.engine) { k.insert({"engine", "rtime", "result", "trace"}); } return k; }();
    std::set<S> keys; for (auto& [k, v] : d->o) SIM_CHECK(keys.insert(k).second, "report-twice", "%s: the report says %s twice", who, k.c_str());
    for (auto& k : want_keys) SIM_CHECK(keys.count(k), "report-lacks", "%s: the report lacks %s: %s", who, k.c_str(), r.out.c_str());
    auto dur = [&](const char* k) { auto* v = get(*d, k); double x = v->k == jr::FLT ? v->d : v->k == jr::UINT ? (double) v->u : -1; SIM_CHECK(x >= 0 && x <= r.total * 1e-9 + 1e-6, "duration", "%s: %s is %g s, the whole run took %g s", who, k, x, r.total * 1e-9); return x; };
    if (!silent) { double x = dur("parsing-duration"); SIM_CHECK(x >= r.rd * 1e-9 - 1e-6 && x <= (r.rd + r.op) * 1e-9 + 1e-6, "parsing-duration", "%s: the parsing duration is %g s, but reading took %g s and opening %g s", who, x, r.rd * 1e-9, r.op * 1e-9); if (r.rd) sim::count("probe.slow_input"); }
    if (!q.engine) return;
    { double x = dur("rtime"); SIM_CHECK(x <= (r.total - r.io) * 1e-9 + 1e-6, "rtime", "%s: rtime is %g s, but besides input and output the run took %g s", who, x, (r.total - r.io) * 1e-9); }
    static const char* names[] = {"", "post*", "pre*", "dual*"}; auto* e = get(*d, "engine"); SIM_CHECK(e->k == jr::STR && e->s == names[q.engine], "engine", "%s: the report names engine %s", who, e->s.c_str());
    bool fixed = q.trace >= 3; auto mode = q.trace == 3 ? model::MAX : model::MIN; model::Answer a;
    if (q.trace < 2) a.reach = model::reachable(I); else a = model::solve(I, mode, fixed);
    sim::count(a.reach ? "probe.reachable" : "probe.unreachable");
    auto* res = get(*d, "result"); SIM_CHECK(res->k == jr::BOOL, "result", "%s: the result is no truth value", who);
    SIM_CHECK(res->b == a.reach, "verdict", "%s: engine %d, trace type %d: the tool says %s, the target is %s", who, q.engine, q.trace, res->b ? "reachable" : "unreachable", a.reach ? "reachable" : "unreachable");
    auto* w = get(*d, "weight"); SIM_CHECK((w != nullptr) == (a.reach && q.trace >= 2), "weight-there", "%s: the report %s a weight", who, w ? "has" : "lacks");
    if (w && a.v.inf) { sim::count("probe.infinite"); SIM_CHECK(w->k == jr::STR && w->s == (q.trace == 3 ? "infinity" : "negative infinity"), "infinite", "%s: trace type %d: the optimum is infinite, the report says otherwise: %s", who, q.trace, r.out.c_str()); return; }
    if (w) { SIM_CHECK(w->k == jr::UINT || w->k == jr::INT || w->k == jr::ARR, "weight-kind", "%s: trace type %d: the optimum is %s, the report says %s", who, q.trace, model::str(a.v.w).c_str(), r.out.c_str()); SIM_CHECK(model::cmp(vec_json(*w), a.v.w) == 0, "weight", "%s: engine %d, trace type %d: the tool reports weight %s, the optimum is %s", who, q.engine, q.trace, model::str(vec_json(*w)).c_str(), model::str(a.v.w).c_str()); sim::count("probe.weights"); }
    auto* t = get(*d, "trace"); bool want = a.reach && q.trace > 0;
    SIM_CHECK((t->k == jr::ARR && !t->a.empty()) == want, "trace-there", "%s: the report %s a trace", who, want ? "lacks" : "has"); if (!want) return;
    std::vector<model::Config> cs;
    for (auto& s : t->a) {
        auto *st = get(s, "state"), *sk = get(s, "stack"); SIM_CHECK(st && sk && (sk->k == jr::ARR || sk->k == jr::NUL), "trace-shape", "%s: a step of the trace lacks state or stack: %s", who, r.out.c_str());
        model::Config c; c.state = -1; if (st->k == jr::STR) { for (int i = 0; i < I.ns; i++) if (q.names && st->s == NAMES[i]) c.state = i; } else if (st->k == jr::UINT && st->u < q.ids.size()) c.state = q.ids[st->u];
        SIM_CHECK(c.state >= 0 && c.state < I.ns, "trace-state", "%s: the trace visits an unknown state: %s", who, r.out.c_str());
        for (auto& l : sk->a) { int x = -1; for (int i = 0; i < I.nl; i++) if (l.k == jr::STR && l.s == rx::name(i)) x = i; SIM_CHECK(x >= 0, "trace-label", "%s: the trace has an unknown label: %s", who, r.out.c_str()); c.stack.push_back(x); }
        cs.push_back(c);
    }
    Vec tot; auto err = model::check_trace(I, cs, mode, tot); SIM_CHECK(err.empty(), "trace", "%s: engine %d, trace type %d: %s", who, q.engine, q.trace, err.c_str()); sim::count("probe.traces");
    if (w) SIM_CHECK(model::cmp(tot, a.v.w) == 0, "trace-weight", "%s: engine %d, trace type %d: the trace weighs %s, the optimum is %s", who, q.engine, q.trace, model::str(tot).c_str(), model::str(a.v.w).c_str());
}
static void run() {
    sim::choose_environment(); sim::clock_set(1000000000000ll);
    Problem q; S in_data; std::vector<S> args; bool silent, separate, msgpack = false, text = false; size_t out_space = SIZE_MAX; S victim; bool wants_pda, wants_inst; int fault; bool must_fail = false, pda_stdin = false;
    {
        sim::Pause p; model::GenOpts o; o.scale = 30; o.max_states = 4; o.max_labels = 3; o.max_rules = 6; o.max_walk = 5;
        separate = sim::chance(1, 2, "separate"); q.names = sim::chance(1, 2, "names"); q.engine = (int) sim::choose(8, "engine"); q.engine = q.engine == 0 ? 0 : 1 + (q.engine - 1) % 3;
        q.wt = (int) sim::choose(separate ? 3 : 5, "weights"); q.trace = (int) sim::choose(q.wt == 0 ? 2 : q.wt <= 2 ? 5 : 3, "trace");
        o.wmode = q.wt == 0 ? 0 : q.wt >= 3 ? 3 : q.wt == 2 && (q.trace >= 3 || q.trace < 2) ? 2 : 1;
        q.p = headers::gen(o); auto& I = q.p.I;
        for (int l = 0; l < I.nl; l++) { model::Rule r; r.op = model::SWAP; r.op_label = l; r.pre = {l}; I.rules.push_back(r); }      // every label occurs in the system
        q.ids = numbering(pda_json(I, q.names, q.wt).o[0].second, I.ns);
        disk::jitter() = sim::chance(1, 2, "jitter"); silent = sim::chance(1, 4, "silent"); wants_pda = sim::chance(1, 4, "print-pda"); wants_inst = sim::chance(1, 3, "print-instance"); fault = (int) sim::choose(13, "fault");
        static const char* wn[] = {"none", "uint", "int", "uint", "int"}; std::vector<S> inputs;
        auto file = [&](const char* name, const S& data) { disk::files()[S("/sim/") + name].data = data; inputs.push_back(S("/sim/") + name); };
        auto txt = [&](const J& j) { S t; jr::text(t, j, false); return t; };
        std::vector<std::vector<S>> groups; auto opt = [&](const char* lng, const char* shrt, const S& v) { if (shrt && sim::chance(1, 2, "short")) groups.push_back({S("-") + shrt, v}); else if (sim::chance(1, 3, "equals")) groups.push_back({S("--") + lng + "=" + v}); else groups.push_back({S("--") + lng, v}); };
        if (separate) {
            text = sim::chance(1, 2, "text"); J d = jr::obj(); d.o.push_back({"pda", pda_json(I, q.names, q.wt)});
            if (sim::chance(1, 4, "stdin")) { in_data = txt(d); opt("pda", "p", "-"); pda_stdin = true; sim::count("probe.stdin"); } else { file("pda", txt(d)); opt("pda", "p", inputs.back()); }
            if (text) { file("a", aut_text(q.p, true, q.names)); opt("initial-automaton", "i", inputs.back()); file("b", aut_text(q.p, false, q.names)); opt("final-automaton", "f", inputs.back()); }
            else { J a = jr::obj(), b = jr::obj(); a.o.push_back({"P-automaton", aut_json(I, I.A, q.names)}); b.o.push_back({"P-automaton", aut_json(I, I.B, q.names)}); file("a", txt(a)); opt("initial-automaton", "i", inputs.back()); file("b", txt(b)); opt("final-automaton", "f", inputs.back()); groups.push_back({"--json-automata"}); }
            if (q.wt || sim::chance(1, 2, "default")) { S w = wn[q.wt]; if (sim::chance(1, 4, "case")) w[0] = (char) toupper(w[0]); opt("weight", nullptr, w); }
            if (q.names) groups.push_back({"--state-names"});
            if (sim::chance(1, 4, "format")) opt("format", nullptr, "pdaaal");
        } else {
            J d = jr::obj(), a = jr::arr(), t = jr::obj(), w; if (q.wt < 3) w = jr::str(wn[q.wt]); else { w = jr::arr(); w.a.push_back(jr::str(wn[q.wt])); }
            t.o = {{"state-names", jr::boolean(q.names)}, {"weight-type", w}}; a.a = {t, pda_json(I, q.names, q.wt), aut_json(I, I.A, q.names), aut_json(I, I.B, q.names)}; d.o.push_back({"instance", a});
            msgpack = sim::chance(1, 3, "msgpack"); S data; if (msgpack) { jr::msgpack(data, d); groups.push_back({"--msgpack"}); } else data = txt(d);
            if (sim::chance(1, 3, "stdin")) { in_data = data; if (sim::chance(1, 2, "dash")) opt("input", nullptr, "-"); sim::count("probe.stdin"); } else { file("instance", data); opt("input", nullptr, inputs.back()); }
        }
        if (q.engine || sim::chance(1, 2, "e0")) opt("engine", "e", std::to_string(q.engine)); if (q.trace || sim::chance(1, 2, "t0")) opt("trace", "t", std::to_string(q.trace));
        if (silent) groups.push_back({sim::chance(1, 2, "short") ? "-s" : "--silent"}); if (wants_pda) opt("print-pda-json", nullptr, "/sim/out.pda"); if (wants_inst) opt("print-solver-instance", nullptr, "/sim/out.instance");
        for (size_t i = groups.size(); i > 1; i--) { size_t k = sim::choose(i, "order"); std::swap(groups[i - 1], groups[i - 1 - k]); } for (auto& g : groups) for (auto& x : g) args.push_back(x);
        std::vector<S> outs; if (wants_pda) outs.push_back("/sim/out.pda"); if (wants_inst) outs.push_back("/sim/out.instance");
        auto victim_of = [&](const std::vector<S>& v) { return v[sim::choose(v.size(), "victim")]; };
        static const int errs[] = {ENOENT, EACCES, EMFILE, EIO};
        switch (fault) {
            case 6: if (!inputs.empty()) { victim = victim_of(inputs); disk::files()[victim].f.open_errno = errs[sim::choose(4, "errno")]; must_fail = true; } break;
            case 7: if (!inputs.empty()) { victim = victim_of(inputs); auto& f = disk::files()[victim]; bool mapped = text && victim != "/sim/pda"; if (mapped) f.f.mmap_fails = true; else { f.f.read_fail = sim::choose(f.data.size(), "at"); f.f.read_errno = sim::chance(1, 2, "eio") ? EIO : ESTALE; } must_fail = true; } break;
            case 8: { S* d = nullptr; if (inputs.empty() || (pda_stdin && sim::chance(1, 3, "cut-stdin"))) d = &in_data; else { victim = victim_of(inputs); if (!(text && victim != "/sim/pda")) d = &disk::files()[victim].data; } if (d) { d->resize(sim::choose(d->size(), "cut")); sim::count("fault.torn_input"); must_fail = true; } break; }
            case 9: if (!outs.empty()) { victim = victim_of(outs); auto& f = disk::files()[victim].f; switch (sim::choose(3, "how")) { case 0: f.open_errno = errs[1 + sim::choose(3, "errno")]; break; case 1: f.space = sim::choose(600, "space"); f.write_errno = sim::chance(1, 2, "enospc") ? ENOSPC : EIO; break; default: f.close_fails = true; } } break;
            case 10: out_space = sim::choose(250, "stdout-space"); break;
            case 11: if (!outs.empty()) { victim = victim_of(outs); disk::files()[victim].f.crash_at = sim::choose(400, "crash"); } break;
            case 12: {        // an option it does not know or support
                auto drop = [&](std::vector<S> pre) { std::vector<S> v; for (size_t i = 0; i < args.size(); i++) { bool hit = false; for (auto& x : pre) { if (args[i] == x) { hit = true; i++; break; } if (x.compare(0, 2, "--") == 0 && args[i].compare(0, x.size() + 1, x + "=") == 0) { hit = true; break; } } if (!hit) v.push_back(args[i]); } args = v; };
                switch (sim::choose(separate ? 6 : 4, "wrong-option")) {
                    case 0: drop({"--engine", "-e"}); args.insert(args.end(), {"--engine", std::to_string(4 + sim::choose(40, "engine"))}); break;
                    case 1: drop({"--trace", "-t"}); args.insert(args.end(), {"--trace", std::to_string(5 + sim::choose(40, "trace"))}); break;
                    case 2: args.push_back("--no-such-option"); break;
                    case 3: drop({"--engine", "-e"}); args.insert(args.end(), {"-e", "post"}); break;
                    case 4: drop({"--weight"}); args.insert(args.end(), {"--weight", sim::chance(1, 2, "unknown") ? "float" : "in"}); break;
                    case 5: drop({"--format"}); args.insert(args.end(), {"--format", sim::chance(1, 2, "unknown") ? "xml" : "moped"}); break;
                }
                must_fail = true; sim::count("probe.wrong_option"); break;
            }
            default: break;
        }
    }
    auto r = run_tool(args, in_data, out_space);
    sim::Pause p;
    auto complete = [&](const S& f) { auto it = disk::files().find(f); return it != disk::files().end() && it->second.complete; };
    if (r.code == -9) {       // it died while writing: what it left behind must not pass for a result
        sim::Unpause u; auto& f = disk::files()[victim]; f.f = {}; { sim::Pause pp; if (f.data.empty() || f.data.back() != '\n') { std::vector<S> a2{"--input", victim, "-e", "1"}; Result r2; { sim::Unpause uu; r2 = run_tool(a2, "", SIZE_MAX); } auto dd = jr::read(f.data); if (!dd || victim == "/sim/out.pda") SIM_CHECK(r2.code != 0, "torn-accepted", "the torn file %s is accepted as a problem", victim.c_str()); } }
        r = run_tool(args, in_data, SIZE_MAX); sim::count("probe.restarted");
        SIM_CHECK(r.code == 0, "restart", "the tool fails after a restart: %s", r.err.c_str());
    }
    if (must_fail) { SIM_CHECK(r.code != 0, "bad-input-accepted", "the tool succeeds although %s", fault == 12 ? "it was given an option it does not know" : victim.empty() ? "its input could not be read" : (victim + " could not be read").c_str()); SIM_CHECK(!r.err.empty(), "no-message", "the tool fails without a message"); sim::count("probe.failed"); return; }
    bool harmed = false; for (auto& [n, f] : disk::files()) if (f.f.open_errno || (f.written && !f.complete)) harmed = true;
    if (!victim.empty() && fault == 9) harmed |= disk::files()[victim].refused;
    if (r.code != 0) { SIM_CHECK(harmed || r.refused, "failed", "the tool fails on a good problem: %s", r.err.c_str()); SIM_CHECK(!r.err.empty(), "no-message", "the tool fails without a message"); sim::count("probe.failed"); return; }
    SIM_CHECK(!r.refused, "report-lost", "the tool claims success although its report could not be written");
    SIM_CHECK(!harmed, "output-lost", "the tool claims success although %s could not be written", victim.c_str());
    judge(q, r, silent, "report");
    if (wants_pda) { SIM_CHECK(complete("/sim/out.pda"), "pda-missing", "the system was not written"); auto d = jr::read(disk::files()["/sim/out.pda"].data); SIM_CHECK(d && d->k == jr::OBJ && d->o.size() == 1 && d->o[0].first == "pda", "pda-malformed", "the system written is not well-formed: %s", disk::files()["/sim/out.pda"].data.c_str());
        if (separate && fault != 9) {     // the system it wrote, read back with the same automata, is the same problem
            std::vector<S> a2{"-p", "/sim/out.pda"}; for (size_t i = 0; i < args.size(); i++) { auto& x = args[i]; bool two = x == "--initial-automaton" || x == "--final-automaton" || x == "-i" || x == "-f" || x == "--weight"; bool one = x == "--json-automata" || x == "--state-names" || x.compare(0, 20, "--initial-automaton=") == 0 || x.compare(0, 18, "--final-automaton=") == 0 || x.compare(0, 9, "--weight=") == 0; if (one || two) a2.push_back(x); if (two) a2.push_back(args[++i]); }
            Problem q2 = q; if (!q2.engine) q2.engine = 1; a2.insert(a2.end(), {"-e", std::to_string(q2.engine), "-t", std::to_string(q2.trace), "-s"}); if (auto* st = get(d->o[0].second, "states")) q2.ids = numbering(*st, q2.p.I.ns);
            if (sim::verbose()) sim::note("system written: %s", disk::files()["/sim/out.pda"].data.c_str());
            Result r2; { sim::Unpause u; r2 = run_tool(a2, "", SIZE_MAX); } SIM_CHECK(r2.code == 0, "pda-reread-failed", "the tool rejects the system it wrote: %s", r2.err.c_str()); judge(q2, r2, true, "system reread"); sim::count("probe.pda_reread");
        } }
    if (wants_inst && fault != 9) {       // what it wrote is the same problem
        SIM_CHECK(complete("/sim/out.instance"), "instance-missing", "the instance was not written"); if (sim::verbose()) sim::note("instance written: %s", disk::files()["/sim/out.instance"].data.c_str());
        if (!q.engine) q.engine = 1; std::vector<S> a2{"--input", "/sim/out.instance", "-e", std::to_string(q.engine), "-t", std::to_string(q.trace), "-s"};
        Result r2; { sim::Unpause u; r2 = run_tool(a2, "", SIZE_MAX); } { q.ids.clear(); auto d = jr::read(disk::files()["/sim/out.instance"].data); if (d && d->k == jr::OBJ && d->o.size() == 1 && d->o[0].second.a.size() > 1) if (auto* st = get(d->o[0].second.a[1], "states")) q.ids = numbering(*st, q.p.I.ns); } SIM_CHECK(r2.code == 0, "reread-failed", "the tool rejects the instance it wrote: %s", r2.err.c_str()); judge(q, r2, true, "reread"); sim::count("probe.reread");
    }
    sim::nontrivial();
}
extern const sim::Property SIM_PROPERTY{"P18", run, nullptr};
