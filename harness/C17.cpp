// C17: one training step moves every weight and bias along the negative gradient of the loss (plus the L2 term).
#include <bits/stdc++.h>
#include "lang/interpreter.hpp"
#include "nets.hpp"

using namespace happyml;
using vf::rng;
using vf::X;

static string num(double d) {
    ostringstream o;
    o.precision(8);
    o << d;
    return o.str();
}

static void features(const vf::NetSpec &s) {
    size_t heads = 0, outs = 0;
    bool fan = false;
    vector<int> used(s.v.size());
    for (auto &v: s.v) {
        heads += v.in.empty();
        outs += v.output;
        for (int i: v.in) fan = fan || ++used[i] > 1;
        vf::count("layer:" + nodeTypeToString(v.type));
        if (v.type == LayerType::full || v.type == convolution2dValid) vf::count("act:" + activationTypeToString(v.act));
        if (v.bias) vf::count("with_bias");
        if (v.norm) vf::count("with_norm");
        if (v.l2) vf::count("with_l2");
        if (v.type == convolution2dValid && v.inShape[2] > 1) vf::count("conv_many_channels");
        if (v.type == convolution2dValid && v.filters > 1) vf::count("conv_many_filters");
        if (v.type == convolution2dValid && !v.in.empty()) vf::count("conv_after_layer");
    }
    vf::count("loss:" + lossTypeToString(s.loss));
    if (heads > 1) vf::count("several_inputs");
    if (outs > 1) vf::count("several_outputs");
    if (fan) vf::count("fan_out");
}

// which part of the network a wrong step is in, as a stable key
static string where(const vf::NetSpec &s, const string &p) {
    auto &o = vf::ownerOf(s, p);
    return vf::isBias(p) ? "bias" : o.type == convolution2dValid ? "conv" : "full";
}

int main() {
    vf::bigEvery(16);
    vf::rule("A case is a distinct network and batch whose every parameter was compared after one step.");
    vf::section("forward", 400, 8000, [] {
        vf::GenOptions go;
        auto s = vf::genNet(go);
        string dir = vf::freshDir("m");

        vf::probe("build");
        auto nn = vf::build(s, "m", dir);
        auto p = vf::randParams(s, vf::readParams(s, nn, dir + "/k"));
        vf::writeParams(p, nn, dir + "/k");
        auto rec = vf::randRecord(s);
        vector<shared_ptr<BaseTensor>> in;
        for (auto &x: rec.given) in.push_back(vf::toT(x));
        vf::Trace t;
        auto want = vf::eval(s, p, rec.given, &t);
        if (t.min_std < 0.02) {
            vf::count("skipped_ill_conditioned");
            return;
        }
        vf::probe("predict");
        auto got = nn->predict(in);
        auto order = s.outputOrder();
        vf::nontrivial(s.str());
        if (!vf::check(got.size() == order.size(), "outputs", "got " + to_string(got.size()) + " outputs from " + s.str())) return;
        for (size_t j = 0; j < order.size(); j++) {
            X y = vf::toX(got[j]);
            auto &w = want[order[j]];
            bool ok = y.r == w.r && y.c == w.c && y.k == w.k;
            double scale = 1 / std::min(1.0, t.min_std);
            for (size_t i = 0; ok && i < y.v.size(); i++) ok = fabs(y.v[i] - w.v[i]) <= 2e-4 * scale * (1 + fabs(w.v[i]));
            vf::check(ok, "forward", "output " + to_string(j) + " is " + vf::show(y) + ", the definition gives " + vf::show(w) + " for " + s.str());
            vf::count("outputs_compared");
        }
    });
    vf::section("step", 900, 25000, [] {
        vf::GenOptions go;
        auto &g = rng();
        auto s = vf::genNet(go);
        string dir = vf::freshDir("m");
        auto nn = vf::build(s, "m", dir);
        auto p = vf::randParams(s, vf::readParams(s, nn, dir + "/k"));
        vector<vf::Record> rs;
        long long n = g.chance(0.35) ? 1 : vf::side(2, 5, 20);
        vf::Trace t;
        for (int tries = 0;; tries++) { // stay away from the points where the derivative does not exist
            rs.clear();
            for (long long i = 0; i < n; i++) rs.push_back(vf::randRecord(s));
            t = vf::traceOf(s, p, rs);
            if (t.kink > 2e-3 && t.min_std > 0.15) break;
            if (tries > 20) {
                vf::count("skipped_ill_conditioned");
                return;
            }
            p = vf::randParams(s, p);
        }
        vf::writeParams(p, nn, dir + "/k");
        auto grad = vf::gradient(s, p, rs, vf::big() ? 60 : 0);
        nn->setExitStrategy(vf::epochs(1));
        vf::probe("train");
        nn->train(vf::dataset(rs), (int) n, g.chance(0.3) ? best : last);
        auto after = vf::readParams(s, nn, dir + "/k");
        vf::nontrivial(s.str() + to_string(n));
        features(s);
        vf::count(n > 1 ? "batches" : "single_records");
        if (vf::big()) vf::count("large_networks");
        for (auto &e: p) {
            auto &a = after[e.first];
            auto &gr = grad[e.first];
            double lr = vf::isBias(e.first) ? s.blr : s.lr, biggest = 0;
            if (!vf::check(a.v.size() == e.second.v.size(), "shape-" + where(s, e.first), e.first + " changed its shape in " + s.str())) continue;
            for (auto v: gr.v) if (!std::isnan(v)) biggest = max(biggest, fabs(lr * v));
            string bad;
            for (size_t i = 0; i < a.v.size(); i++) {
                if (std::isnan(gr.v[i])) continue;
                double step = a.v[i] - e.second.v[i], want = -lr * gr.v[i];
                double tol = 2e-3 * biggest + 1e-6 * (1 + fabs(e.second.v[i])) * (1 + 1 / std::min(1.0, t.min_std));
                if (!(fabs(step - want) <= tol) && bad.empty())
                    bad = e.first + "[" + to_string(i) + "] moved by " + num(step) + ", minus the rate times the gradient is " + num(want);
                vf::count("parameters_compared");
                if (fabs(want) > 10 * tol) vf::count("parameters_moved");
            }
            vf::check(bad.empty(), "step-" + where(s, e.first) + (n > 1 ? ":batch" : ":one"), bad + " in " + s.str() + " batch " + to_string(n));
        }
        vf::sample(s.str() + " batch " + to_string(n));
    });
    vf::section("sequence", 150, 4000, [] { // two epochs of one batch each: state left behind by the first must not leak into the second
        vf::GenOptions go;
        go.kinks = false;
        auto &g = rng();
        vf::st().big = false;
        auto s = vf::genNet(go);
        if (s.loss == mae) s.loss = mse;
        s.lr *= 0.3f;
        s.blr *= 0.3f;
        string dir = vf::freshDir("m");
        auto nn = vf::build(s, "m", dir);
        auto p = vf::randParams(s, vf::readParams(s, nn, dir + "/k"));
        vector<vf::Record> rs;
        long long n = g.range(1, 3);
        for (long long i = 0; i < n; i++) rs.push_back(vf::randRecord(s));
        vf::writeParams(p, nn, dir + "/k");
        int steps = 3;
        if (g.chance(0.5)) {
            nn->setExitStrategy(vf::epochs(steps));
            nn->train(vf::dataset(rs), (int) n, last);
        } else
            for (int i = 0; i < steps; i++) {
                if (g.chance(0.5)) { // predictions in between must not matter
                    vector<shared_ptr<BaseTensor>> in;
                    for (auto &x: vf::randRecord(s).given) in.push_back(vf::toT(x));
                    nn->predict(in);
                    vf::count("predictions_in_between");
                }
                nn->setExitStrategy(vf::epochs(1));
                nn->train(vf::dataset(rs), (int) n, last);
            }
        auto after = vf::readParams(s, nn, dir + "/k");
        auto q = p;
        vf::Trace t;
        for (int i = 0; i < steps; i++) {
            auto tr = vf::traceOf(s, q, rs);
            t.kink = min(t.kink, tr.kink);
            t.min_std = min(t.min_std, tr.min_std);
            auto gr = vf::gradient(s, q, rs);
            for (auto &e: q) for (size_t j = 0; j < e.second.v.size(); j++) e.second.v[j] -= (vf::isBias(e.first) ? s.blr : s.lr) * gr[e.first].v[j];
        }
        if (t.kink < 2e-3 || t.min_std < 0.15) {
            vf::count("skipped_ill_conditioned");
            return;
        }
        vf::nontrivial(s.str());
        for (auto &e: q) {
            string bad;
            double moved = 0;
            for (size_t j = 0; j < e.second.v.size(); j++) moved = max(moved, fabs(e.second.v[j] - p[e.first].v[j]));
            for (size_t j = 0; j < e.second.v.size(); j++)
                if (!(fabs(after[e.first].v[j] - e.second.v[j]) <= 2e-2 * moved + 1e-5) && bad.empty())
                    bad = e.first + "[" + to_string(j) + "] is " + num(after[e.first].v[j]) + " after " + to_string(steps) + " steps, expected " + num(e.second.v[j]);
            vf::check(bad.empty(), "sequence-" + where(s, e.first), bad + " in " + s.str());
            vf::count("sequences_compared");
        }
    });
    vf::section("clipping", 150, 4000, [] { // an error is scaled down to the threshold, never up, and keeps its direction
        auto &g = rng();
        vf::NetSpec s;
        s.lr = s.blr = 0.1f;
        vf::VSpec a, b;
        a.type = b.type = LayerType::full;
        size_t ni = vf::side(1, 4, 30), nh = vf::side(1, 4, 30), no = vf::side(1, 4, 30);
        a.inShape = {1, ni, 1};
        a.outShape = b.inShape = {1, nh, 1};
        b.outShape = {1, no, 1};
        b.in = {0};
        b.output = true;
        b.clip = true;
        b.clip_threshold = (float) g.real(0.05, 6);
        s.v = {a, b};
        string dir = vf::freshDir("m");
        auto nn = vf::build(s, "m", dir);
        auto p = vf::randParams(s, vf::readParams(s, nn, dir + "/k"));
        vf::writeParams(p, nn, dir + "/k");
        vector<vf::Record> rs{vf::randRecord(s)};
        nn->setExitStrategy(vf::epochs(1));
        nn->train(vf::dataset(rs), 1, last);
        auto after = vf::readParams(s, nn, dir + "/k");
        auto o = vf::eval(s, p, rs[0].given);
        auto norm = [](const vector<double> &v) {
            double t = 0;
            for (auto x: v) t += x * x;
            return sqrt(t);
        };
        auto clip = [&](vector<double> v) {
            double m = norm(v);
            vf::count(m > b.clip_threshold ? "errors_clipped" : "errors_kept");
            if (m > b.clip_threshold) for (auto &x: v) x *= b.clip_threshold / m;
            return v;
        };
        vector<double> e0(no), e1(nh);
        for (size_t i = 0; i < no; i++) e0[i] = 2 * (o[1].v[i] - rs[0].expected[0].v[i]);
        e0 = clip(e0);
        for (size_t h = 0; h < nh; h++) for (size_t i = 0; i < no; i++) e1[h] += e0[i] * p["2_full"].at(h, i, 0);
        e1 = clip(e1);
        bool ok = true;
        for (size_t h = 0; h < nh; h++) for (size_t i = 0; i < no; i++) ok = ok && fabs(after["2_full"].at(h, i, 0) - p["2_full"].at(h, i, 0) + s.lr * o[0].v[h] * e0[i]) < 1e-4;
        for (size_t c = 0; c < ni; c++) for (size_t h = 0; h < nh; h++) ok = ok && fabs(after["1_full"].at(c, h, 0) - p["1_full"].at(c, h, 0) + s.lr * rs[0].given[0].v[c] * e1[h]) < 1e-4;
        vf::nontrivial(to_string(b.clip_threshold) + vf::show(p["1_full"]));
        vf::check(ok, "clipping", "the step with an error clipped at " + num(b.clip_threshold) + " is not the clipped error times the input, " + s.str());
    });
    for (auto f: {"layer:full", "layer:convolution2dValid", "layer:concatenate", "layer:normalize", "layer:flatten", "with_bias", "with_norm", "with_l2",
                  "conv_many_channels", "conv_many_filters", "conv_after_layer", "several_inputs", "several_outputs", "fan_out", "batches", "single_records",
                  "errors_clipped", "errors_kept", "predictions_in_between"})
        vf::require(f, 5);
    for (auto l: {mse, mae, smae, categoricalCrossEntropy, binaryCrossEntropy}) vf::require("loss:" + lossTypeToString(l), 20);
    for (auto a: {relu, leaky, sigmoid, sigmoidApprox, tanhDefault, tanhApprox, linear, softmax}) vf::require("act:" + activationTypeToString(a), 20);
    vf::require("parameters_compared", 2000);
    vf::require("parameters_moved", 500);
    return vf::main();
}
