// Instances as users of the factories state them: rules, initial and accepting control states, and regular expressions for the stacks.
#pragma once
#include "rxaut.h"
namespace headers {
    struct Prob { model::Inst I; std::vector<int> initial, accepting; rx::P ri, rf; };
    inline std::vector<int> subset(int ns, int must) { std::vector<int> r; for (int i = 0; i < ns; i++) if (i == must || sim::chance(1, 4, "in")) r.push_back(i); return r; }
    inline rx::P around(const std::vector<int>& w, int nl) {      // an expression that matches w, more or less tightly
        using namespace sim;
        std::vector<rx::P> c;
        for (int l : w) switch (choose(6, "widen")) {
            case 0: case 1: case 2: c.push_back(rx::lit({l}, false)); break;
            case 3: { std::set<int> s{l}; s.insert((int) choose(nl, "l")); c.push_back(rx::lit(s, false)); break; }
            case 4: { std::set<int> s; int k = (int) choose(nl, "l"); if (k != l) s.insert(k); c.push_back(rx::lit(s, true)); break; }
            default: c.push_back(rx::lit({}, true));
        }
        if (chance(1, 5, "tail")) { rx::P t = rx::gen(1, nl); c.push_back(rx::mk(chance(1, 2, "star") ? rx::STAR : rx::OPT, {t})); }
        rx::P e = c.empty() ? rx::mk(rx::EPS) : c.size() == 1 ? c[0] : rx::mk(rx::CAT, c);
        if (chance(1, 6, "alt")) { rx::P a = rx::gen(1, nl); e = rx::mk(rx::ALT, {e, a}); }
        return e;
    }
    inline Prob gen(model::GenOpts o) {
        using namespace sim;
        Pause pause; Prob p; auto& I = p.I;
        int ns = I.ns = 1 + (int) choose(o.max_states, "ns"), nl = I.nl = 1 + (int) choose(o.max_labels, "nl");
        int deep = 0;
        if (o.scale && chance(1, o.scale, "large")) {
            large_instance(); int d = (int) choose(4, "dimension"); while (!(o.dims >> d & 1)) d = (d + 1) % 4;
            switch (d) {
                case 0: nl = I.nl = 9 + (int) choose(40, "many-labels"); o.wide = true; count("probe.many_labels"); break;
                case 1: ns = I.ns = 9 + (int) choose(32, "many-states"); o.max_rules = 3 * ns; o.max_walk = 24; count("probe.many_states"); break;
                case 2: o.max_rules = 50; count("probe.many_rules"); break;
                default: deep = 6 + (int) choose(20, "deep"); o.max_walk = 30; count("probe.deep_stacks"); break;
            }
        }
        int nr = (int) choose(o.max_rules + 1, "nrules");
        for (int i = 0; i < nr; i++) I.rules.push_back(model::gen_rule(o, ns, nl));
        model::Config c0 = model::gen_config(ns, nl, true);
        for (int i = 0; i < deep; i++) c0.stack.push_back((int) choose(nl, "cl"));
        model::Config c = c0;
        if (chance(2, 3, "walk")) {
            int k = (int) choose(o.max_walk + 1, "walklen");
            for (int i = 0; i < k && !c.stack.empty(); i++) {
                std::vector<const model::Rule*> ap; for (auto& r : I.rules) if (model::apply(I, r, c)) ap.push_back(&r);
                if (!ap.empty() && chance(1, 2, "reuse")) { c = *model::apply(I, *ap[choose(ap.size(), "which")], c); continue; }
                model::Rule r = model::gen_rule(o, ns, nl); r.from = c.state; if (!r.wild && !model::applies(I, r, c.stack[0])) r.pre = {c.stack[0]};
                I.rules.push_back(r); c = *model::apply(I, r, c);
            }
            if (chance(1, 4, "spurious") && !c.stack.empty()) c.stack[choose(c.stack.size(), "at")] = (int) choose(nl, "l");
        } else c = model::gen_config(ns, nl, true);
        p.initial = subset(ns, c0.state); p.accepting = subset(ns, c.state);
        p.ri = around(c0.stack, nl); p.rf = around(c.stack, nl);
        I.A = rx::automaton(*p.ri, ns, nl, p.initial); I.B = rx::automaton(*p.rf, ns, nl, p.accepting);
        model::note(I);
        if (verbose()) note("initial stacks %s, final stacks %s", rx::show(*p.ri).c_str(), rx::show(*p.rf).c_str());
        for (auto& r : I.rules) ev("rule", r.from * 100 + r.to, r.op * 100 + r.op_label, r.wild, r.pre.empty() ? 0 : r.pre[0]);
        return p;
    }
}
