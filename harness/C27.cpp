// C27: dropout drops at its rate while training, neutral on average, with one mask per step, and does nothing in predictions.
#include <bits/stdc++.h>
#include "lang/interpreter.hpp"
#include "nets.hpp"

using namespace happyml;
using vf::rng;
using vf::X;
using vf::T;

static string num(double d) {
    ostringstream o;
    o.precision(8);
    o << d;
    return o.str();
}

static string desc(const vector<size_t> &shape, double rate) {
    return "shape " + to_string(shape[0]) + "," + to_string(shape[1]) + "," + to_string(shape[2]) + " rate " + num(rate);
}

static vector<size_t> anyShape(long long most) {
    auto &g = rng();
    while (true) {
        vector<size_t> s{(size_t) vf::side(1, 6, 20), (size_t) vf::side(1, 9, 30), (size_t) vf::side(1, 3, 6)};
        if (g.chance(0.4)) s[0] = s[2] = 1;
        if ((long long) (s[0] * s[1] * s[2]) <= (vf::big() ? 40 * most : most)) return s;
    }
}

static X away(const vector<size_t> &s) { // no zeros: what was dropped can be read from the result
    X x = vf::randX(s[0], s[1], s[2], 0.25, 2);
    for (auto &v: x.v) if (rng().chance(0.5)) v = -v;
    return x;
}

static vf::NetSpec pictures() { // dropout between two convolutions
    auto &g = rng();
    vf::NetSpec s;
    size_t k = (size_t) g.range(1, 2), side = (size_t) g.range(1, 2), c = side == 2 ? 1 : (size_t) g.range(1, 3);
    vf::VSpec a, d, b;
    a.type = b.type = convolution2dValid;
    a.kernel = k;
    a.inShape = {side + k - 1, side + k - 1, (size_t) g.range(1, 2)};
    a.filters = c;
    a.outShape = d.inShape = d.outShape = b.inShape = {side, side, c};
    a.act = tanhDefault;
    a.bias = g.chance(0.5);
    d.type = LayerType::dropout;
    d.in = {0};
    d.dropout = (float) g.real(0.1, 0.6);
    b.in = {1};
    b.kernel = side == 2 ? (size_t) g.range(1, 2) : 1;
    b.filters = (size_t) g.range(1, 2);
    b.outShape = {side - b.kernel + 1, side - b.kernel + 1, b.filters};
    b.act = linear;
    b.output = true;
    s.v = {a, d, b};
    vf::count("between_convolutions");
    return s;
}

int main() {
    vf::rule("A case is a distinct layer, or network and batch, whose every element was compared in one training pass.");
    vf::section("layer", 600, 20000, [] {
        auto &g = rng();
        auto shape = anyShape(60);
        float rate = g.chance(0.1) ? 0.0f : (float) (g.chance(0.2) ? g.real(0.9, 0.99) : g.real(0.01, 0.9));
        DropoutLayer layer("d", shape, rate);
        string what = desc(shape, rate);
        vf::nontrivial(what);
        struct Pass {
            X in;
            T out;
            X seen;
        };
        vector<Pass> passes;
        for (long long n = vf::side(1, 4, 30); n > 0; n--) {
            X x = away(shape), e = away(shape);
            vf::probe("forward");
            if (g.chance(0.3)) {
                X y = vf::toX(layer.forward({vf::toT(x)}, false));
                vf::check(y.r == x.r && y.c == x.c && y.k == x.k && y.v == x.v, "prediction", "a prediction was changed by dropout: " + what);
                vf::count("predictions_compared");
            }
            auto out = layer.forward({vf::toT(x)}, true);
            X y = vf::toX(out);
            if (!vf::check(y.r == x.r && y.c == x.c && y.k == x.k, "shape", "the shape changed: " + what)) return;
            double scale = 1 / (1 - (double) rate);
            vector<double> mask(x.v.size());
            string bad;
            for (size_t i = 0; i < x.v.size(); i++) {
                mask[i] = y.v[i] == 0 ? 0 : scale;
                if (fabs(y.v[i] - x.v[i] * mask[i]) > 1e-4 * fabs(x.v[i]) * scale && bad.empty()) bad = num(x.v[i]) + " became " + num(y.v[i]);
                vf::count(mask[i] == 0 ? "dropped" : "kept");
            }
            vf::check(bad.empty(), "scale", bad + ", neither zero nor scaled: " + what);
            if (rate == 0) vf::check(find(mask.begin(), mask.end(), 0.0) == mask.end(), "rate-zero", "a rate of zero dropped something: " + what);
            vf::probe("backward");
            auto back = layer.backward(vf::toT(e));
            if (!vf::check(back.size() == 1, "backward-count", to_string(back.size()) + " errors: " + what)) return;
            X b = vf::toX(back[0]);
            bad = b.r == x.r && b.c == x.c && b.k == x.k ? "" : "shape";
            for (size_t i = 0; bad.empty() && i < b.v.size(); i++)
                if (fabs(b.v[i] - e.v[i] * mask[i]) > 1e-4 * fabs(e.v[i]) * scale) bad = "error " + num(e.v[i]) + " became " + num(b.v[i]) + " where the mask was " + num(mask[i]);
            vf::check(bad.empty(), "backward-mask", bad + ": " + what);
            vf::count("backward_compared");
            passes.push_back({x, out, y});
        }
        for (auto &p: passes) vf::check(vf::toX(p.out).v == p.seen.v, "stable", "an earlier result changed when it was read again: " + what);
    });
    vf::section("rate", 150, 3000, [] {
        auto &g = rng();
        auto shape = anyShape(40);
        float rate = (float) g.real(0.02, 0.95);
        string what = desc(shape, rate);
        DropoutLayer layer("d", shape, rate);
        X x = away(shape);
        auto t = vf::toT(x);
        const int n = 500;
        size_t size = x.v.size();
        vector<int> dropped(size);
        double total = 0;
        set<string> masks;
        int alike = 0;
        for (int i = 0; i < n; i++) {
            X y = vf::toX(layer.forward({t}, true));
            string m;
            size_t d = 0;
            for (size_t j = 0; j < size; j++) if (y.v[j] == 0) dropped[j]++, total++, d++, m += '0'; else m += '1';
            masks.insert(m);
            alike += d == 0 || d == size;
        }
        vf::nontrivial(what);
        vf::count("masks", (long long) masks.size());
        double sd = sqrt(rate * (1 - rate) / n);
        for (size_t j = 0; j < size; j++)
            if (!vf::check(fabs(dropped[j] / (double) n - rate) <= 6 * sd + 0.01, "rate-position", "element " + to_string(j) + " was dropped in " + to_string(dropped[j]) + " of " + to_string(n) + " passes: " + what)) break;
        vf::check(fabs(total / (double) size / n - rate) <= 6 * sd + 0.005, "rate", num(total / (double) size / n) + " of all elements were dropped: " + what);
        if (size >= 6 && rate > 0.3 && rate < 0.7) {
            vf::check(masks.size() >= 5, "masks", "only " + to_string(masks.size()) + " different masks in " + to_string(n) + " passes: " + what);
            vf::check(alike < n * 0.8, "all-alike", to_string(alike) + " of " + to_string(n) + " passes kept or dropped everything: " + what);
            vf::count("mask_variety_checked");
        }
    });
    vf::section("refused", 40, 400, [] {
        auto &g = rng();
        float rate = g.chance(0.5) ? -(float) g.real(0.001, 3) : 1 + (float) g.real(0.001, 3);
        bool threw = false;
        try {
            DropoutLayer layer("d", {1, 3, 1}, rate);
        } catch (exception &) {
            threw = true;
        }
        vf::nontrivial(num(rate));
        vf::check(threw, "rate-refused", "a rate of " + num(rate) + " was accepted");
    });
    vf::section("network", 240, 6000, [] { // one step of a network with dropout is the gradient step for some mask, the same in both directions
        auto &g = rng();
        vf::GenOptions go;
        go.kinks = false;
        go.norm = false;
        go.drop = true;
        vf::NetSpec s;
        long long n;
        size_t bits;
        bool pictureCase = g.chance(0.2);
        while (true) {
            s = pictureCase ? pictures() : vf::genNet(go);
            if (s.loss == mae) s.loss = mse;
            bits = 0;
            for (auto &v: s.v) if (v.type == LayerType::dropout) bits += v.inShape[0] * v.inShape[1] * v.inShape[2];
            n = g.range(1, 3);
            if (bits && bits * n <= 7) break;
        }
        string dir = vf::freshDir("m");
        vf::probe("build");
        auto nn = vf::build(s, "m", dir);
        auto p = vf::randParams(s, vf::readParams(s, nn, dir + "/k"));
        vf::writeParams(p, nn, dir + "/k");
        string what = s.str() + " batch " + to_string(n);
        for (long long step = g.range(1, 4); step > 0; step--) {
            vector<vf::Record> rs;
            for (long long i = 0; i < n; i++) rs.push_back(vf::randRecord(s));
            auto order = s.outputOrder();
            { // predictions ignore the layer
                vector<T> in;
                for (auto &x: rs[0].given) in.push_back(vf::toT(x));
                vf::probe("predict");
                auto got = nn->predict(in);
                auto want = vf::eval(s, p, rs[0].given);
                for (size_t j = 0; j < order.size(); j++) {
                    X y = vf::toX(got[j]);
                    auto &w = want[order[j]];
                    bool ok = y.r == w.r && y.c == w.c && y.k == w.k;
                    for (size_t i = 0; ok && i < y.v.size(); i++) ok = fabs(y.v[i] - w.v[i]) <= 3e-4 * (1 + fabs(w.v[i]));
                    vf::check(ok, "network-prediction", "predicted " + vf::show(y) + ", without dropout it is " + vf::show(w) + " for " + what);
                    vf::count("network_predictions");
                }
            }
            nn->setExitStrategy(vf::epochs(1));
            vf::probe("train");
            nn->train(vf::dataset(rs), (int) n, last);
            auto after = vf::readParams(s, nn, dir + "/k");
            // the gradient of each record under each mask, then the best combination
            vector<vector<vf::Params>> grads(n);
            bool saturated = false; // the derivative of the loss is then mostly rounding
            for (long long r = 0; r < n; r++)
                for (size_t m = 0; m < (size_t) 1 << bits; m++) {
                    map<int, vector<double>> masks;
                    size_t at = 0;
                    for (size_t i = 0; i < s.v.size(); i++)
                        if (s.v[i].type == LayerType::dropout)
                            for (size_t k = s.v[i].inShape[0] * s.v[i].inShape[1] * s.v[i].inShape[2]; k > 0; k--)
                                masks[(int) i].push_back(m >> at++ & 1 ? 1 / (1 - (double) s.v[i].dropout) : 0);
                    vf::dropMasks = &masks;
                    grads[r].push_back(vf::gradient(s, p, {rs[r]}));
                    if (s.loss == binaryCrossEntropy) {
                        auto out = vf::eval(s, p, rs[r].given);
                        for (int o: order) for (double x: out[o].v) saturated = saturated || x < 1e-3 || x > 1 - 1e-3;
                    }
                    vf::dropMasks = nullptr;
                }
            if (saturated) {
                vf::count("saturated_steps_left_out");
                return;
            }
            double nearest = 1e300;
            size_t fits = 0, combos = (size_t) 1 << bits * n, fit = 0;
            for (size_t c = 0; c < combos; c++) {
                double worst = 0;
                for (auto &e: p) {
                    double lr = vf::isBias(e.first) ? s.blr : s.lr, biggest = 0;
                    vector<double> want(e.second.v.size());
                    for (size_t i = 0; i < want.size(); i++) {
                        for (long long r = 0; r < n; r++) want[i] -= lr * grads[r][c >> bits * r & (((size_t) 1 << bits) - 1)][e.first].v[i] / (double) n;
                        biggest = max(biggest, fabs(want[i]));
                    }
                    for (size_t i = 0; i < want.size(); i++) worst = max(worst, fabs(after[e.first].v[i] - e.second.v[i] - want[i]) / (3e-3 * biggest + 3e-6 * (1 + fabs(e.second.v[i]))));
                    if (worst > nearest && worst > 1) break;
                }
                nearest = min(nearest, worst);
                if (worst <= 1) fits++, fit = c;
            }
            vf::count("steps_explained", fits > 0);
            vf::count("masks_tried", (long long) combos);
            if (!vf::check(fits > 0, n > 1 ? "network-step:batch" : "network-step:one",
                           "no mask explains the step (nearest is " + num(nearest) + " tolerances off) in " + what)) return;
            if (fits == 1) {
                double ones = 0, expect = 0;
                size_t at = 0;
                for (auto &v: s.v)
                    if (v.type == LayerType::dropout)
                        for (size_t k = v.inShape[0] * v.inShape[1] * v.inShape[2]; k > 0; k--, at++)
                            for (long long r = 0; r < n; r++) ones += fit >> (bits * r + at) & 1, expect += 1 - v.dropout;
                vf::count("masks_identified");
                vf::count("kept_in_networks", (long long) ones);
                vf::count("expected_kept_in_networks", (long long) llround(expect));
            }
            p = after;
        }
        vf::nontrivial(what);
        for (auto &v: s.v) vf::count("layer:" + nodeTypeToString(v.type));
        vf::sample(what);
    });
    for (auto c: {"dropped", "kept", "backward_compared", "predictions_compared", "mask_variety_checked", "steps_explained", "masks_identified", "network_predictions"}) vf::require(c, 20);
    return vf::main();
}
