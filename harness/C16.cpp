// C16: activation functions and losses compute their formulas; derivatives point the way the loss changes.
#include <bits/stdc++.h>
#include "lang/interpreter.hpp"
#include "types/tensor_views/noop_tensor_view.hpp"
#include "tensor_gen.hpp"

using namespace happyml;
using vf::Ref;
using vf::rng;
typedef shared_ptr<BaseTensor> T;

static string num(double d) {
    ostringstream o;
    o.precision(9);
    o << d;
    return o.str();
}

struct Act {
    string name;
    function<shared_ptr<ActivationFunction>()> make;
    function<double(double)> f;
    double kink; // where the derivative is not defined, NaN if everywhere smooth
    function<double(double)> df;
};

static double sig(double x) { return x >= 0 ? 1 / (1 + exp(-x)) : exp(x) / (1 + exp(x)); }

static vector<Act> acts() {
    return {
            {"relu", [] { return make_shared<ReLUActivationFunction>(); }, [](double x) { return std::max(x, 0.0); }, 0, [](double x) { return x > 0 ? 1.0 : 0.0; }},
            {"leaky", [] { return make_shared<LeakyReLUActivationFunction>(); }, [](double x) { return x < 0 ? 0.01 * x : x; }, 0, [](double x) { return x > 0 ? 1.0 : 0.01; }},
            {"linear", [] { return make_shared<LinearActivationFunction>(); }, [](double x) { return x; }, NAN, [](double) { return 1.0; }},
            {"sigmoid", [] { return make_shared<SigmoidActivationFunction>(); }, sig, NAN, [](double x) { return sig(x) * sig(-x); }},
            {"sigmoidApprox", [] { return make_shared<SigmoidApproximationActivationFunction>(); }, [](double x) { return 0.5 * (x / (1 + fabs(x)) + 1); }, NAN,
             [](double x) { return 0.5 / ((1 + fabs(x)) * (1 + fabs(x))); }},
            {"tanh", [] { return make_shared<TanhActivationFunction>(); }, [](double x) { return tanh(x); }, NAN, [](double x) { return 1 - tanh(x) * tanh(x); }},
            {"tanhApprox", [] { return make_shared<TanhApproximationActivationFunction>(); }, [](double x) { return tanh(x); }, NAN, [](double x) { return 1 - tanh(x) * tanh(x); }},
    };
}

// inputs of every size, with the boundaries
static T input(Ref &ref) {
    auto &g = rng();
    size_t r = vf::side(1, 4, 20), c = vf::side(1, 7, 30), k = vf::side(1, 3, 5);
    auto v = vf::genVals(g, r, c, k, (int) g.range(0, 4));
    static const vector<float> edge{0.f, -0.f, 1.f, -1.f, 17.f, -17.f, 50.f, -50.f, 88.f, -88.f, 89.f, -89.f, 104.f, -104.f, 1000.f, -1000.f,
                                    1e-7f, -1e-7f, 1e6f, -1e6f, 3e38f, -3e38f};
    for (auto &a: v) for (auto &b: a) for (auto &x: b) if (g.chance(0.2)) x = g.pick(edge);
    T t = vf::full(v);
    ref = vf::read(t);
    if (g.chance(0.3)) t = make_shared<TensorNoOpView>(t);
    return t;
}

static vector<double> softmaxRef(const Ref &x) {
    double m = -INFINITY, s = 0;
    for (auto v: x.v) m = std::max(m, v);
    vector<double> o;
    for (auto v: x.v) o.push_back(exp(v - m)), s += o.back();
    for (auto &v: o) v /= s;
    return o;
}

struct Loss {
    string name;
    LossType type;
    function<shared_ptr<LossFunction>()> make;
    function<double(double, double)> each; // truth, prediction
    bool mean;
};

static vector<Loss> losses() {
    return {
            {"mse", mse, [] { return make_shared<MeanSquaredErrorLossFunction>(); }, [](double t, double p) { return (p - t) * (p - t); }, true},
            {"mae", mae, [] { return make_shared<MeanAbsoluteErrorLossFunction>(); }, [](double t, double p) { return fabs(p - t); }, true},
            {"smae", smae, [] { return make_shared<SmoothMeanAbsoluteErrorLossFunction>(); },
             [](double t, double p) { double e = fabs(p - t); return e < 1 ? 0.5 * e * e : e - 0.5; }, true},
            {"bce", binaryCrossEntropy, [] { return make_shared<BinaryCrossEntropyLossFunction>(); },
             [](double t, double p) { return -t * log(std::max(p, 1e-8)) - (1 - t) * log(std::max(1 - p, 1e-8)); }, false},
            {"cce", categoricalCrossEntropy, [] { return make_shared<CategoricalCrossEntropyLossFunction>(); },
             [](double t, double p) { return -t * log(std::max(p, 1e-8)); }, false},
    };
}

int main() {
    vf::bigEvery(12);
    vf::rule("A case is a distinct input tensor (or truth/prediction pair) whose every element was compared.");
    vf::section("activation", 1500, 40000, [] {
        auto all = acts();
        auto &a = all[vf::st().index % all.size()];
        Ref x;
        T t = input(x);
        vf::nontrivial(a.name + to_string(x.hash()));
        auto f = a.make();
        vf::probe("activate-" + a.name);
        T y = f->activate(t);
        T d = f->derivative(t);
        Ref want = x, dwant = x;
        for (size_t i = 0; i < x.v.size(); i++) want.v[i] = a.f(x.v[i]), dwant.v[i] = a.df(x.v[i]);
        vf::count("activation:" + a.name);
        vf::same("activate-" + a.name, y, want, {}, 2e-6, 3e-7, [&] { return a.name + " of " + x.str(); });
        if (d->rowCount() != x.r || d->columnCount() != x.c || d->channelCount() != x.k)
            vf::fail("derivative-" + a.name + ":shape", "the derivative has another shape than its input");
        else
            for (size_t ch = 0; ch < x.k; ch++)
                for (size_t r = 0; r < x.r; r++)
                    for (size_t c = 0; c < x.c; c++) {
                        double v = x.at(r, c, ch), got = d->getValue(r, c, ch), w = dwant.at(r, c, ch);
                        bool ok;
                        if (v == a.kink) { // any subgradient
                            double lo = a.df(-1), hi = a.df(1);
                            ok = got >= lo - 1e-6 && got <= hi + 1e-6;
                            vf::count("kinks_seen");
                        } else ok = fabs(got - w) <= 3e-6 * std::max(1.0, fabs(w)) && (w == 0 || got >= 0);
                        vf::check(ok, "derivative-" + a.name + ":value", a.name + "'(" + num(v) + ") is " + num(got) + ", the definition gives " + num(w));
                    }
        vf::sample(a.name + " of " + x.str());
        // by name, as a stored model asks for it
        vf::check(activationTypeToString(stringToActivationType(a.name == "relu" ? "relu" : a.name)) == a.name, "activation-name", a.name);
    });
    vf::section("softmax", 500, 15000, [] {
        auto &g = rng();
        Ref x;
        T t = input(x);
        if (g.chance(0.5)) { // a usual logit row
            auto v = vf::genVals(g, 1, vf::side(1, 12, 80), 1, (int) g.range(0, 4));
            t = vf::full(v);
            x = vf::read(t);
        }
        vf::nontrivial(x.hash());
        SoftmaxActivationFunction f;
        T y = f.activate(t);
        Ref want = x;
        want.v = softmaxRef(x);
        vf::same("activate-softmax", y, want, {}, 2e-5, 1e-6, [&] { return "softmax of " + x.str(); });
        double s = 0;
        bool in = true;
        for (auto v: vf::read(y).v) s += v, in = in && v >= 0 && v <= 1.000001;
        vf::check(in && fabs(s - 1) < 1e-4, "softmax-distribution", "sums to " + num(s) + " for " + x.str());
        vf::count("activation:softmax");
        // shifting every input changes nothing
        double mx = 0;
        for (auto v: x.v) mx = std::max(mx, fabs(v));
        if (mx < 1000) {
            T shifted = make_shared<ScalarAddTensorView>(t, 3.0f);
            vf::same("softmax-shift", f.activate(shifted), want, {}, 2e-3, 1e-4, [&] { return "softmax of shifted " + x.str(); });
        }
    });
    vf::section("softmax-cross-entropy-pair", 500, 15000, [] {
        // the error sent back through softmax must be the true derivative of the combined loss
        auto &g = rng();
        size_t n = vf::side(2, 9, 60);
        auto lv = vf::genVals(g, 1, n, 1, (int) g.range(0, 1));
        for (auto &x: lv[0][0]) x = std::max(-9.f, std::min(9.f, x * (g.chance(0.5) ? 1.f : 0.3f)));
        vf::Vals tv = vf::genVals(g, 1, n, 1, 3);
        for (auto &x: tv[0][0]) x = 0;
        if (g.chance(0.8)) tv[0][0][g.range(0, (long long) n - 1)] = 1;
        else { // soft truth
            double s = 0;
            for (auto &x: tv[0][0]) x = (float) g.real(0.01, 1), s += x;
            for (auto &x: tv[0][0]) x = (float) (x / s);
        }
        T logits = vf::full(lv), truth = vf::full(tv);
        SoftmaxActivationFunction f;
        CategoricalCrossEntropyLossFunction l;
        T p = make_shared<FullTensor>(f.activate(logits));
        T e = make_shared<FullTensor>(l.compute_error(truth, p));
        T d = l.compute_loss_derivative(e, truth, p);
        T back = make_shared<ElementWiseMultiplyTensorView>(f.derivative(logits), d);
        Ref x = vf::read(logits), tr = vf::read(truth);
        vf::nontrivial(x.hash() ^ tr.hash());
        auto sm = softmaxRef(x);
        double st = 0;
        for (auto v: tr.v) st += v;
        Ref want = x;
        for (size_t i = 0; i < n; i++) want.v[i] = sm[i] * st - tr.v[i];
        vf::same("softmax-cce-gradient", back, want, {}, 1e-4, 2e-5, [&] { return "gradient at logits " + x.str() + " truth " + tr.str(); });
        vf::count("pairs_checked");
    });
    vf::section("loss", 1500, 40000, [] {
        auto all = losses();
        auto &L = all[vf::st().index % all.size()];
        auto &g = rng();
        size_t r = vf::side(1, 3, 20), c = vf::side(1, 6, 30), k = vf::side(1, 3, 5);
        int fam = (int) g.range(0, 3);
        auto tv = vf::genVals(g, r, c, k, fam), pv = vf::genVals(g, r, c, k, fam);
        bool prob = !L.mean;
        for (size_t a = 0; a < k; a++)
            for (size_t b = 0; b < r; b++)
                for (size_t d = 0; d < c; d++) {
                    float &t = tv[a][b][d], &p = pv[a][b][d];
                    if (prob) {
                        t = g.chance(0.8) ? (float) g.range(0, 1) : (float) g.unit();
                        p = g.chance(0.2) ? g.pick(vector<float>{0.f, 1.f, 1e-9f, 1e-6f, 0.5f, 0.99999994f}) : (float) g.real(0.001, 0.999);
                    } else if (g.chance(0.15)) p = t;
                    else if (g.chance(0.1)) p = t + (g.chance(0.5) ? 1.f : -1.f);
                }
        T truth = vf::full(tv), pred = vf::full(pv);
        Ref t = vf::read(truth), p = vf::read(pred);
        vf::nontrivial(L.name + to_string(t.hash() ^ vf::mix(p.hash())));
        auto f = L.make();
        vf::probe("loss-" + L.name);
        T e = make_shared<FullTensor>(f->compute_error(truth, pred));
        double got = f->compute_loss(e);
        double want = 0, mag = 0;
        for (size_t i = 0; i < t.v.size(); i++) want += L.each(t.v[i], p.v[i]), mag += fabs(L.each(t.v[i], p.v[i]));
        if (L.mean) want /= (double) t.v.size(), mag /= (double) t.v.size();
        vf::count("loss:" + L.name);
        vf::check(vf::near(got, want, 1e-3, 2e-4 * std::max(1.0, mag * 0.1)), "loss-" + L.name, L.name + " is " + num(got) + ", the definition gives " + num(want) + " for truth " + t.str() + " prediction " + p.str());
        vf::sample(L.name + " truth " + t.str() + " prediction " + p.str());
        T d = f->compute_loss_derivative(e, truth, pred);
        Ref dv = vf::read(d);
        if (dv.r != t.r || dv.c != t.c || dv.k != t.k) {
            vf::fail("loss-derivative-" + L.name + ":shape", "the derivative has another shape");
            return;
        }
        for (size_t i = 0; i < t.v.size(); i++) {
            double tt = t.v[i], pp = p.v[i], w;
            if (L.name == "mse") w = 2 * (pp - tt);
            else if (L.name == "mae") w = pp > tt ? 1 : pp < tt ? -1 : 0;
            else if (L.name == "smae") w = fabs(pp - tt) < 1 ? pp - tt : (pp > tt ? 1 : -1);
            else if (L.name == "cce") w = pp - tt;
            else { // the clamped ends only have to point the right way and stay finite
                if (pp < 1e-5 || pp > 1 - 1e-5) {
                    double slope = -tt / std::max(pp, 1e-8) + (1 - tt) / std::max(1 - pp, 1e-8);
                    vf::check(std::isfinite(dv.v[i]) && (fabs(slope) < 1e3 || (dv.v[i] > 0) == (slope > 0)), "loss-derivative-bce:saturated",
                              "at truth " + num(tt) + " prediction " + num(pp) + " the derivative is " + num(dv.v[i]));
                    vf::count("saturated_predictions");
                    continue;
                }
                w = -tt / pp + (1 - tt) / (1 - pp);
            }
            bool ok = vf::near(dv.v[i], w, 1e-3, 1e-4);
            vf::check(ok, "loss-derivative-" + L.name + ":value", L.name + " derivative at truth " + num(tt) + " prediction " + num(pp) + " is " + num(dv.v[i]) + ", expected " + num(w));
            if (L.name != "bce" && tt == pp) vf::count("zero_error_elements");
        }
        vf::check(lossTypeToString(stringToLossType(lossTypeToString(L.type))) == lossTypeToString(L.type) && stringToLossType(lossTypeToString(L.type)) == L.type,
                  "loss-name", L.name);
    });
    for (auto &a: acts()) vf::require("activation:" + a.name, 100);
    for (auto &a: losses()) vf::require("loss:" + a.name, 100);
    vf::require("activation:softmax", 100);
    vf::require("pairs_checked", 100);
    vf::require("saturated_predictions", 50);
    vf::require("zero_error_elements", 50);
    return vf::main();
}
