// C21: a prediction is a function of the weights and the input, whatever happened before, and has no lasting effect.
#include <bits/stdc++.h>
#include "lang/interpreter.hpp"
#include "nets.hpp"

using namespace happyml;
using vf::rng;
using vf::X;
using vf::T;

typedef shared_ptr<NeuralNetworkForTraining> Net;

// keeps the order of its records whatever shuffler it is given, so that the same training is the same arithmetic
struct InOrder : public TrainingDataSet {
    vector<shared_ptr<TrainingPair>> pairs;
    size_t at = 0;

    explicit InOrder(const vector<vf::Record> &rs) {
        for (auto &r: rs) {
            vector<T> g, e;
            for (auto &x: r.given) g.push_back(vf::toT(x));
            for (auto &x: r.expected) e.push_back(vf::toT(x));
            pairs.push_back(make_shared<TrainingPair>(g, e));
        }
    }

    size_t recordCount() override { return pairs.size(); }

    void restart() override { at = 0; }

    shared_ptr<TrainingPair> nextRecord() override { return at < pairs.size() ? pairs[at++] : nullptr; }

    vector<vector<size_t>> getGivenShapes() override {
        vector<vector<size_t>> s;
        for (auto &t: pairs[0]->getGiven()) s.push_back(t->getShape());
        return s;
    }

    vector<vector<size_t>> getExpectedShapes() override {
        vector<vector<size_t>> s;
        for (auto &t: pairs[0]->getExpected()) s.push_back(t->getShape());
        return s;
    }
};

static bool same(const X &a, const X &b) {
    if (a.r != b.r || a.c != b.c || a.k != b.k) return false;
    for (size_t i = 0; i < a.v.size(); i++) if (a.v[i] != b.v[i] && !(isnan(a.v[i]) && isnan(b.v[i]))) return false;
    return true;
}

static string diff(const vf::Params &a, const vf::Params &b) {
    for (auto &e: a) if (!same(e.second, b.at(e.first))) return e.first + " is " + vf::show(b.at(e.first)) + " instead of " + vf::show(e.second);
    return "";
}

static vf::NetSpec anyNet(bool drop) {
    auto &g = rng();
    vf::GenOptions go;
    go.drop = drop;
    go.low_bits = true;
    auto s = vf::genNet(go);
    s.opt = g.pick(vector<OptimizerType>{sgd, adam, sgdm, adam_with_decaying_momentum, sgdm_with_decaying_momentum});
    for (auto &v: s.v) if (g.chance(0.2)) v.clip = true, v.clip_threshold = (float) g.real(0.05, 9);
    return s;
}

// an input as one of the many kinds of tensor that hold the same values
static T asInput(const X &x) {
    auto &g = rng();
    T t = vf::toT(x);
    switch (g.range(0, 3)) {
        case 0: return make_shared<TransposeTensorView>(make_shared<TransposeTensorView>(t));
        case 1: return make_shared<ScalarMultiplyTensorView>(t, 1.0f);
        default: return t;
    }
}

int main() {
    vf::rule("A case is a distinct network with a history of predictions, refused predictions, training and loading.");
    vf::section("history", 500, 15000, [] {
        auto &g = rng();
        bool drop = g.chance(0.25);
        auto s = anyNet(drop);
        string dir = vf::freshDir("m"), what = s.str();
        auto build = [&](const string &at) {
            auto nn = vf::build(s, "m", at);
            return nn;
        };
        Net nn = build(dir + "/r1"), twin = build(dir + "/r2"); // the twin is trained the same but never asked
        auto p = vf::randParams(s, vf::readParams(s, nn, dir + "/k"));
        vf::writeParams(p, nn, dir + "/k");
        vf::writeParams(p, twin, dir + "/k");
        p = vf::readParams(s, nn, dir + "/k"); // as the layers hold them
        vector<vector<X>> inputs;
        for (int i = 0; i < 4; i++) inputs.push_back(vf::randRecord(s).given);
        map<size_t, vector<X>> memo; // for the current weights
        struct Kept {
            vector<T> result;
            vector<X> expected;
        };
        vector<Kept> kept; // results that are read long after they were made
        ostringstream trail;
        auto ask = [&](size_t i, const string &why) {
            vector<T> in, hold;
            for (auto &x: inputs[i]) in.push_back(asInput(x)), hold.push_back(in.back());
            vf::probe("predict");
            vector<T> out;
            if (in.size() == 1 && g.chance(0.5)) out = g.chance(0.5) ? nn->predict(in[0]) : vector<T>{};
            if (out.empty()) out = nn->predict(in);
            if (!memo.count(i) || g.chance(0.7)) {
                vector<X> got;
                for (auto &t: out) got.push_back(vf::toX(t));
                if (!memo.count(i)) memo[i] = got;
                bool ok = got.size() == memo[i].size();
                for (size_t j = 0; ok && j < got.size(); j++) ok = same(got[j], memo[i][j]);
                vf::check(ok, "repeatable:" + why, "input " + to_string(i) + " now gives " + vf::show(got[0]) + " instead of " + vf::show(memo[i][0]) + " after" + trail.str() + " in " + what);
                vf::count("predictions_compared");
            }
            kept.push_back({out, memo[i]});
            for (size_t j = 0; j < hold.size(); j++) vf::check(same(vf::toX(hold[j]), inputs[i][j]), "input-changed", "a prediction changed its input after" + trail.str() + " in " + what);
        };
        string last_op = "predict";
        bool lost = false;
        for (long long step = g.range(4, 16); step > 0 && !lost; step--) {
            switch (g.range(0, 8)) {
                case 0: case 1: case 2: {
                    size_t i = (size_t) g.range(0, 3);
                    trail << " ask" << i;
                    ask(i, last_op);
                    break;
                }
                case 3: { // refused: wrong number of inputs
                    trail << " count";
                    auto in = vector<T>();
                    for (auto &x: inputs[0]) in.push_back(vf::toT(x));
                    if (g.chance(0.5)) in.push_back(vf::toT(inputs[0][0])); else in.pop_back();
                    bool threw = false;
                    try {
                        nn->predict(in);
                    } catch (exception &) {
                        threw = true;
                    }
                    vf::check(threw, "wrong-count", "a prediction from " + to_string(in.size()) + " inputs was made by " + what);
                    vf::count("refused");
                    last_op = "count";
                    break;
                }
                case 4: { // probably refused: an input of another shape
                    size_t bad = (size_t) g.range(0, (long long) inputs[0].size() - 1);
                    trail << " shape" << bad;
                    vector<T> in;
                    for (auto &x: inputs[1]) in.push_back(vf::toT(x));
                    auto &x = inputs[1][bad];
                    switch (g.range(0, 2)) {
                        case 0: in[bad] = vf::toT(vf::randX(x.r, x.c + 1, x.k, -1, 1)); break;
                        case 1: in[bad] = vf::toT(vf::randX(x.r + 1, x.c, x.k, -1, 1)); break;
                        default: in[bad] = vf::toT(vf::randX(x.r, x.c, x.k + 1, -1, 1));
                    }
                    vf::probe("predict-other-shape");
                    try {
                        for (auto &t: nn->predict(in)) vf::toX(t);
                        vf::count("other_shape_answered");
                    } catch (exception &) {
                        vf::count("refused_shape");
                    }
                    last_op = "shape";
                    break;
                }
                case 5: case 6: { // train both the same
                    long long n = g.range(1, 4), batch = g.range(1, n), times = g.range(1, 2);
                    vector<vf::Record> rs;
                    for (long long i = 0; i < n; i++) rs.push_back(vf::randRecord(s));
                    bool test = g.chance(0.3);
                    auto policy = g.chance(0.4) ? best : last;
                    trail << " train" << n << "/" << batch << "x" << times << (test ? "t" : "");
                    auto t = test ? vf::randRecord(s) : vf::Record();
                    vf::probe("train");
                    bool ok[2];
                    int k = 0;
                    for (auto &m: {nn, twin}) {
                        m->setExitStrategy(vf::epochs((int) times));
                        try {
                            if (test) m->train(make_shared<InOrder>(rs), make_shared<InOrder>(vector<vf::Record>{t}), (int) batch, policy);
                            else m->train(make_shared<InOrder>(rs), (int) batch, policy);
                            ok[k++] = true;
                        } catch (runtime_error &) { // not a number
                            ok[k++] = false;
                        }
                    }
                    vf::check(ok[0] == ok[1], "twin-failed", "only one of two equal models could be trained after" + trail.str() + " in " + what);
                    if (!ok[0]) {
                        lost = true;
                        break;
                    }
                    auto a = vf::readParams(s, nn, dir + "/k"), b = vf::readParams(s, twin, dir + "/k");
                    if (!drop) {
                        auto bad = diff(b, a);
                        vf::check(bad.empty(), "training-disturbed", "with predictions, " + bad + " after" + trail.str() + " in " + what);
                        vf::count("twins_compared");
                    }
                    p = a;
                    memo.clear();
                    last_op = "train";
                    break;
                }
                case 7: { // every prediction so far left the weights alone
                    trail << " look";
                    auto bad = diff(p, vf::readParams(s, nn, dir + "/k"));
                    vf::check(bad.empty(), "weights-changed", bad + " after" + trail.str() + " in " + what);
                    vf::count("weights_compared");
                    break;
                }
                default: { // other weights, then back
                    size_t i = (size_t) g.range(0, 3);
                    trail << " swap";
                    ask(i, last_op);
                    nn->saveKnowledge(dir + "/k", "mine", true);
                    vf::writeParams(vf::randParams(s, p), nn, dir + "/k");
                    vector<T> in;
                    for (auto &x: inputs[i]) in.push_back(vf::toT(x));
                    auto out = nn->predict(in);
                    nn->loadKnowledge(dir + "/k", "mine");
                    ask(i, "swap");
                    vf::count("swapped");
                    last_op = "swap";
                }
            }
        }
        if (lost) return;
        for (auto &e: kept) {
            bool ok = e.result.size() == e.expected.size();
            for (size_t j = 0; ok && j < e.expected.size(); j++) ok = same(vf::toX(e.result[j]), e.expected[j]);
            vf::check(ok, "result-changed", "a result read late is no longer what was predicted; history" + trail.str() + " in " + what);
            vf::count("late_reads");
        }
        for (size_t i = 0; i < 4; i++) ask(i, "end");
        auto bad = diff(p, vf::readParams(s, nn, dir + "/k"));
        vf::check(bad.empty(), "weights-changed", bad + " after" + trail.str() + " in " + what);
        vf::nontrivial(what + trail.str());
        vf::sample(trail.str() + " in " + what);
        for (auto &v: s.v) vf::count("layer:" + nodeTypeToString(v.type));
    });
    vf::section("apart", 150, 4000, [] { // models in the same process do not know of each other
        auto &g = rng();
        string dir = vf::freshDir("m");
        struct M {
            vf::NetSpec s;
            Net nn;
            vf::Params p;
            vector<X> in;
            vector<X> out;
        };
        vector<M> ms(3);
        bool twins = g.chance(0.5);
        for (auto &m: ms) {
            m.s = &m != &ms[0] && twins ? ms[0].s : anyNet(false);
            m.nn = vf::build(m.s, "m", dir + "/" + to_string(&m - &ms[0]));
            m.p = vf::randParams(m.s, vf::readParams(m.s, m.nn, dir + "/k"));
            vf::writeParams(m.p, m.nn, dir + "/k");
            m.p = vf::readParams(m.s, m.nn, dir + "/k");
            m.in = vf::randRecord(m.s).given;
        }
        auto ask = [&](M &m) {
            vector<T> in;
            for (auto &x: m.in) in.push_back(vf::toT(x));
            vector<X> r;
            for (auto &t: m.nn->predict(in)) r.push_back(vf::toX(t));
            return r;
        };
        for (auto &m: ms) m.out = ask(m);
        for (int i = 0; i < 6; i++) {
            auto &m = ms[(size_t) g.range(0, 2)];
            vector<vf::Record> rs{vf::randRecord(m.s), vf::randRecord(m.s)};
            m.nn->setExitStrategy(vf::epochs(1));
            try {
                m.nn->train(make_shared<InOrder>(rs), 2, last);
            } catch (runtime_error &) {
                return;
            }
            m.p = vf::readParams(m.s, m.nn, dir + "/k");
            m.out = ask(m);
            for (auto &o: ms) {
                auto bad = diff(o.p, vf::readParams(o.s, o.nn, dir + "/k"));
                vf::check(bad.empty(), "apart-weights", "training one model changed another: " + bad + " in " + o.s.str());
                auto r = ask(o);
                bool ok = r.size() == o.out.size();
                for (size_t j = 0; ok && j < r.size(); j++) ok = same(r[j], o.out[j]);
                vf::check(ok, "apart-predictions", "using one model changed the predictions of another: " + o.s.str());
                vf::count("others_compared");
            }
        }
        vf::nontrivial(ms[0].s.str() + ms[1].s.str() + ms[2].s.str());
    });
    vf::section("same-start", 150, 4000, [] { // the same weights, settings and data make the same model; only the order of a full batch may differ
        auto &g = rng();
        vf::GenOptions go;
        go.kinks = false;
        go.norm = false;
        auto s = vf::genNet(go);
        if (s.loss == mae) s.loss = mse;
        string dir = vf::freshDir("m");
        Net a = vf::build(s, "m", dir + "/a"), b = vf::build(s, "m", dir + "/b");
        auto p = vf::randParams(s, vf::readParams(s, a, dir + "/k"));
        vf::writeParams(p, a, dir + "/k");
        vf::writeParams(p, b, dir + "/k");
        vector<vf::Record> rs;
        long long n = g.range(1, 6);
        for (long long i = 0; i < n; i++) rs.push_back(vf::randRecord(s));
        auto shuffled = rs;
        g.shuffle(shuffled);
        int times = (int) g.range(1, 3);
        a->setExitStrategy(vf::epochs(times));
        b->setExitStrategy(vf::epochs(times));
        vf::probe("train");
        a->train(vf::dataset(rs), (int) n, last);
        b->train(vf::dataset(shuffled), (int) n, last);
        auto pa = vf::readParams(s, a, dir + "/k"), pb = vf::readParams(s, b, dir + "/k");
        string bad;
        for (auto &e: pa)
            for (size_t i = 0; bad.empty() && i < e.second.v.size(); i++)
                if (!vf::near(e.second.v[i], pb[e.first].v[i], 2e-3, 2e-4)) bad = e.first + "[" + to_string(i) + "] " + to_string(e.second.v[i]) + " and " + to_string(pb[e.first].v[i]);
        vf::check(bad.empty(), "same-start", "trained alike, " + bad + " in " + s.str());
        vf::count("same_start");
        vf::nontrivial(s.str() + to_string(n));
    });
    for (auto c: {"predictions_compared", "refused", "refused_shape", "twins_compared", "weights_compared", "swapped", "late_reads", "others_compared", "same_start"}) vf::require(c, 20);
    return vf::main();
}
