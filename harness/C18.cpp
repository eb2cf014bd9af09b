// C18: every optimizer follows its recurrence, with separate state per trained tensor.
#include <bits/stdc++.h>
#include "lang/interpreter.hpp"
#include "nets.hpp"

using namespace happyml;
using vf::rng;
using vf::X;

static string num(double d) {
    ostringstream o;
    o.precision(9);
    o << d;
    return o.str();
}

// the textbook recurrences in double precision
struct Model {
    OptimizerType type;
    double lr, blr;
    int step = 0, last_w = 1, last_b = 1;
    struct St {
        vector<double> m, v;
    };
    map<string, St> w, b; // by tensor
    vector<double> slack;  // how far the guard against division by zero (1e-8, once or twice) may move each value
    bool doubtful = false; // the decayed rate hangs on the sign of a mean that is zero within rounding

    bool decaying() const { return type == adam_with_decaying_momentum || type == sgdm_with_decaying_momentum; }

    static double mean(const vector<double> &x) { return accumulate(x.begin(), x.end(), 0.0) / (double) x.size(); }

    double demon(map<string, St> &s, bool adamKind) {
        double m = 0, v = 0, mag = 0;
        for (auto &e: s) {
            m += mean(e.second.m) / (double) s.size();
            for (auto x: e.second.m) mag += fabs(x) / (double) e.second.m.size() / (double) s.size();
            if (adamKind) v += mean(e.second.v) / (double) s.size();
        }
        if (!adamKind) v = m * m;
        if (mag > 0 && fabs(m) < 1e-3 * mag) doubtful = true;
        double c1 = min((double) 1e-1f, max((double) 1e-5f, 1 / (1 - pow((double) 0.9f, step))));
        double d = m * c1 / (sqrt(v / (1 - pow((double) 0.999f, step))) + 1e-8);
        return min((double) 1e-1f, max((double) 1e-5f, d));
    }

    vector<double> update(const string &id, bool bias, const vector<double> &p, const vector<double> &g) {
        auto &s = bias ? b : w;
        double &rate = bias ? blr : lr;
        int &last = bias ? last_b : last_w;
        auto &st = s[id];
        if (st.m.empty()) st.m.assign(p.size(), 0), st.v.assign(p.size(), 0);
        vector<double> o = p;
        slack.assign(p.size(), 0);
        if (type == sgd) for (size_t i = 0; i < p.size(); i++) o[i] = p[i] - rate * g[i];
        else if (type == sgdm || type == sgdm_with_decaying_momentum) {
            for (size_t i = 0; i < p.size(); i++) st.m[i] = (double) 0.9f * st.m[i] + rate * g[i], o[i] = p[i] - st.m[i];
            if (decaying() && step > last) last = step, rate = demon(s, false);
        } else {
            if (decaying() && step > last) last = step, rate = demon(s, true);
            for (size_t i = 0; i < p.size(); i++) {
                st.m[i] = (double) 0.9f * st.m[i] + (double) (1 - 0.9f) * g[i];
                st.v[i] = (double) 0.999f * st.v[i] + (double) (1 - 0.999f) * g[i] * g[i];
                o[i] = p[i] - rate * st.m[i] / (sqrt(st.v[i]) + 1e-8);
                slack[i] = fabs(o[i] - p[i]) * min(1.0, 2e-8 / (sqrt(st.v[i]) + 1e-8));
            }
        }
        return o;
    }
};

static const vector<OptimizerType> TYPES{sgd, sgdm, adam, sgdm_with_decaying_momentum, adam_with_decaying_momentum};

int main() {
    vf::bigEvery(16);
    vf::rule("A case is a distinct gradient history (or network) whose every update was compared.");
    vf::section("history", 900, 30000, [] {
        auto &g = rng();
        auto type = TYPES[vf::st().index % TYPES.size()];
        string tn = optimizerTypeToString(type);
        float lr = (float) exp(g.real(log(1e-4), log(0.5))), blr = (float) exp(g.real(log(1e-4), log(0.5)));
        vf::probe("create-" + tn);
        auto opt = createOptimizer(type, lr, blr);
        Model m{type, lr, blr};
        struct P {
            string name;
            bool bias;
            int id;
            X v;
            shared_ptr<BaseTensor> t;
            size_t starts; // this tensor is trained from this epoch on
        };
        vector<P> ps;
        set<int> ids;
        for (long long n = vf::side(1, 5, 14), i = 0; i < n; i++) {
            P p;
            p.bias = g.chance(0.4);
            p.name = (p.bias ? "b" : "w") + to_string(i);
            p.id = p.bias ? opt->registerForBiasChanges() : opt->registerForWeightChanges();
            if (type != sgd) vf::check(ids.insert(p.id).second, "shared-id-" + tn, "two tensors were given the same id " + to_string(p.id));
            p.v = vf::randX(vf::side(1, 3, 20), vf::side(1, 4, 20), g.chance(0.3) ? vf::side(2, 2, 12) : 1, -1, 1);
            p.t = vf::toT(p.v);
            p.starts = g.chance(0.7) ? 0 : (size_t) g.range(1, 2);
            ps.push_back(p);
        }
        int family = (int) g.range(0, 4);
        long long epochs = vf::side(1, 6, 60), batches = g.range(1, 4);
        vector<double> trail;
        bool moved = false;
        for (long long e = 0; e < epochs; e++) {
            opt->update_time_step();
            m.step++;
            for (long long b = 0; b < batches; b++) {
                auto order = ps;
                vector<size_t> idx(ps.size());
                iota(idx.begin(), idx.end(), 0);
                if (g.chance(0.5)) g.shuffle(idx);
                for (size_t i: idx) {
                    auto &p = ps[i];
                    if ((size_t) e < p.starts) continue;
                    double scale = family == 1 ? 1e-3 : family == 2 ? 30 : 1;
                    X gr = vf::randX(p.v.r, p.v.c, p.v.k, family == 3 ? 0.1 : -scale, scale);
                    if (family == 4 || g.chance(0.1)) for (auto &x: gr.v) if (g.chance(family == 4 ? 0.5 : 1)) x = 0;
                    double before = p.bias ? opt->getBiasLearningRate() : opt->getLearningRate();
                    double other = p.bias ? opt->getLearningRate() : opt->getBiasLearningRate();
                    shared_ptr<BaseTensor> gt = vf::toT(gr);
                    vf::probe("update-" + tn);
                    shared_ptr<BaseTensor> nt = p.bias ? opt->calculateBiasChange(p.id, p.t, gt) : opt->calculateWeightsChange(p.id, p.t, gt);
                    nt = materializeTensor(nt);
                    X now = vf::toX(nt);
                    vector<double> old(p.v.v.begin(), p.v.v.end());
                    auto want = m.update(p.name, p.bias, old, gr.v);
                    double rate = p.bias ? opt->getBiasLearningRate() : opt->getLearningRate(), rate2 = p.bias ? opt->getLearningRate() : opt->getBiasLearningRate();
                    if (m.doubtful) {
                        vf::count("doubtful_histories");
                        return;
                    }
                    string bad;
                    double big = 0;
                    for (size_t j = 0; j < old.size(); j++) big = max(big, fabs(want[j] - old[j]));
                    for (size_t j = 0; j < old.size() && bad.empty(); j++) {
                        double tol = 3e-4 * fabs(want[j] - old[j]) + 2e-4 * big + 3e-7 * (1 + fabs(old[j])) + m.slack[j];
                        if (!(fabs(now.v[j] - want[j]) <= tol))
                            bad = p.name + "[" + to_string(j) + "] " + num(old[j]) + " -> " + num(now.v[j]) + ", expected " + num(want[j]) + " for gradient " + num(gr.v[j]);
                        if (want[j] != old[j]) moved = true;
                    }
                    string ctx = " in epoch " + to_string(e + 1) + ", batch " + to_string(b + 1) + ", " + tn + " rates " + num(lr) + "/" + num(blr);
                    vf::check(now.v.size() == old.size() && bad.empty(), "update-" + tn + (p.bias ? "-bias" : "-weights"), bad + ctx);
                    vf::check(vf::near(rate, p.bias ? m.blr : m.lr, 2e-3, 1e-7), "rate-" + tn, "the rate became " + num(rate) + ", expected " + num(p.bias ? m.blr : m.lr) + ctx);
                    vf::check(rate2 == other, "other-rate-" + tn, "updating a " + string(p.bias ? "bias" : "weight") + " changed the other rate" + ctx);
                    if (rate != before) {
                        vf::count("rate_changes");
                        vf::check(m.decaying() && e > 0 && rate >= 0.999e-5 && rate <= 0.1001, "rate-" + tn, "the rate became " + num(rate) + ctx);
                    }
                    bool zero = all_of(gr.v.begin(), gr.v.end(), [](double x) { return x == 0; });
                    if (zero) vf::count("zero_gradients");
                    trail.push_back(now.v[0]);
                    // go on from what the optimizer made of it, so errors do not pile up
                    p.v = now;
                    p.t = nt;
                    if (p.bias) m.blr = rate; else m.lr = rate;
                    vf::count("updates:" + tn);
                }
            }
        }
        if (moved) vf::nontrivial(vf::hashBytes(trail.data(), trail.size() * sizeof(double)));
        vf::sample(tn + ": " + to_string(ps.size()) + " tensors, " + to_string(epochs) + " epochs of " + to_string(batches));
    });
    vf::section("network", 250, 6000, [] { // the same rules as seen from outside: whole networks, several epochs
        auto &g = rng();
        vf::GenOptions go;
        go.kinks = false;
        go.norm = false;
        vf::st().big = false;
        auto s = vf::genNet(go);
        if (s.loss == mae) s.loss = mse;
        s.opt = TYPES[1 + vf::st().index % 2]; // sgdm, adam
        s.lr = (float) g.real(0.005, 0.05);
        s.blr = (float) g.real(0.005, 0.05);
        string tn = optimizerTypeToString(s.opt);
        string dir = vf::freshDir("m");
        auto nn = vf::build(s, "m", dir);
        auto p = vf::randParams(s, vf::readParams(s, nn, dir + "/k"));
        vf::writeParams(p, nn, dir + "/k");
        vector<vf::Record> rs;
        long long n = g.range(1, 3);
        for (long long i = 0; i < n; i++) rs.push_back(vf::randRecord(s));
        int steps = (int) g.range(2, 4);
        auto q = p;
        Model m{s.opt, s.lr, s.blr};
        for (int i = 0; i < steps; i++) {
            m.step++;
            auto t = vf::traceOf(s, q, rs);
            auto gr = vf::gradient(s, q, rs);
            double biggest = 0, smallest = 1e300;
            for (auto &e: gr) for (auto x: e.second.v) biggest = max(biggest, fabs(x)), smallest = min(smallest, fabs(x));
            if (t.kink < 1e-3 || (s.opt == adam && smallest < 2e-3 * max(1.0, biggest))) { // its direction would be rounding noise
                vf::count("skipped_ill_conditioned");
                return;
            }
            for (auto &e: q) e.second.v = m.update(e.first, vf::isBias(e.first), e.second.v, gr[e.first].v);
        }
        nn->setExitStrategy(vf::epochs(steps));
        nn->train(vf::dataset(rs), (int) n, last);
        auto after = vf::readParams(s, nn, dir + "/k");
        vf::nontrivial(s.str());
        for (auto &e: q) {
            double moved = 0;
            string bad;
            for (size_t j = 0; j < e.second.v.size(); j++) moved = max(moved, fabs(e.second.v[j] - p[e.first].v[j]));
            for (size_t j = 0; j < e.second.v.size(); j++)
                if (!(fabs(after[e.first].v[j] - e.second.v[j]) <= 3e-2 * moved + 2e-5) && bad.empty())
                    bad = e.first + "[" + to_string(j) + "] is " + num(after[e.first].v[j]) + " after " + to_string(steps) + " steps, expected " + num(e.second.v[j]);
            bool conv = vf::ownerOf(s, e.first).type == convolution2dValid;
            vf::check(bad.empty(), "network-" + tn + (vf::isBias(e.first) ? "-bias" : conv ? "-conv" : "-full"), bad + " in " + s.str());
            if (conv && vf::ownerOf(s, e.first).filters > 1) vf::count("filters_compared");
        }
        vf::count("networks:" + tn);
    });
    for (auto t: TYPES) vf::require("updates:" + optimizerTypeToString(t), 500);
    vf::require("networks:" + optimizerTypeToString(sgdm), 20);
    vf::require("networks:" + optimizerTypeToString(adam), 20);
    vf::require("filters_compared", 10);
    vf::require("rate_changes", 50);
    vf::require("zero_gradients", 50);
    return vf::main();
}
