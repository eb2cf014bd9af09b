// Random networks: one description, two executions. build() makes the real network through the DSL; eval() computes the same
// network in double precision straight from the textbook definitions, so predictions and gradients have an independent answer.
#ifndef VF_NETS_HPP
#define VF_NETS_HPP

#include "tensor_gen.hpp"

namespace vf {
    using namespace happyml;

    struct X { // channel-major, then rows, then columns: the element order of happyml tensors
        size_t r = 0, c = 0, k = 0;
        std::vector<double> v;

        X() = default;

        X(size_t r, size_t c, size_t k) : r(r), c(c), k(k), v(r * c * k) {}

        double &at(size_t a, size_t b, size_t ch) { return v[(ch * r + a) * c + b]; }

        double at(size_t a, size_t b, size_t ch) const { return v[(ch * r + a) * c + b]; }
    };

    inline X toX(const T &t) {
        Ref q = read(t);
        X x(q.r, q.c, q.k);
        x.v.assign(q.v.begin(), q.v.end());
        for (size_t ch = 0; ch < x.k; ch++) for (size_t a = 0; a < x.r; a++) for (size_t b = 0; b < x.c; b++) x.at(a, b, ch) = q.at(a, b, ch);
        return x;
    }

    inline T toT(const X &x) {
        Vals v(x.k, std::vector<std::vector<float>>(x.r, std::vector<float>(x.c)));
        for (size_t ch = 0; ch < x.k; ch++) for (size_t a = 0; a < x.r; a++) for (size_t b = 0; b < x.c; b++) v[ch][a][b] = (float) x.at(a, b, ch);
        return full(v);
    }

    inline X randX(size_t r, size_t c, size_t k, double lo, double hi) {
        X x(r, c, k);
        for (auto &e: x.v) e = (double) (float) rng().real(lo, hi);
        return x;
    }

    struct VSpec {
        LayerType type = LayerType::full;
        std::vector<int> in; // earlier vertices; empty: the next network input
        std::vector<size_t> inShape, outShape;
        ActivationType act = linear;
        bool bias = false, norm = false, l2 = false, output = false;
        float strength = 0.02f;
        size_t filters = 0, kernel = 0;
        float dropout = 0;
        int bits = 32;
        bool clip = false, materialized = false, set_materialized = false;
        float clip_threshold = 5;
    };

    struct NetSpec {
        std::vector<VSpec> v;
        OptimizerType opt = sgd;
        LossType loss = mse;
        float lr = 0.1f, blr = 0.05f;

        std::vector<std::vector<size_t>> inputShapes() const {
            std::vector<std::vector<size_t>> r;
            for (auto &x: v) if (x.in.empty()) r.push_back(x.inShape);
            return r;
        }

        // outputs in the order in which the network reports them
        std::vector<int> outputOrder() const {
            std::vector<int> o;
            std::vector<char> seen(v.size());
            std::function<void(int)> dfs = [&](int i) {
                if (seen[i]) return;
                seen[i] = 1;
                if (v[i].output) o.push_back(i);
                for (int j = i + 1; j < (int) v.size(); j++) for (int p: v[j].in) if (p == i) dfs(j);
            };
            for (int i = 0; i < (int) v.size(); i++) if (v[i].in.empty()) dfs(i);
            return o;
        }

        std::string str() const {
            std::ostringstream o;
            o << optimizerTypeToString(opt) << "/" << lossTypeToString(loss) << " lr " << lr << "/" << blr << ":";
            for (size_t i = 0; i < v.size(); i++) {
                auto &x = v[i];
                o << " #" << i + 1 << "=" << nodeTypeToString(x.type) << "(";
                if (x.in.empty()) o << "input";
                for (size_t j = 0; j < x.in.size(); j++) o << (j ? "," : "") << "#" << x.in[j] + 1;
                o << ")";
                for (auto s: x.inShape) o << " " << s;
                o << " ->";
                for (auto s: x.outShape) o << " " << s;
                if (x.type == LayerType::full || x.type == convolution2dValid) o << " " << activationTypeToString(x.act);
                if (x.kernel) o << " kernel " << x.kernel;
                if (x.bias) o << " bias";
                if (x.norm) o << " norm";
                if (x.l2) o << " l2 " << x.strength;
                if (x.bits != 32) o << " bits " << x.bits;
                if (x.clip) o << " clip " << x.clip_threshold;
                if (x.type == LayerType::dropout) o << " rate " << x.dropout;
                if (x.output) o << " output";
                o << ";";
            }
            return o.str();
        }
    };

    typedef shared_ptr<HappymlDSL::NNVertex> VP;

    inline shared_ptr<NeuralNetworkForTraining> build(const NetSpec &s, const std::string &name, const std::string &repo) {
        auto dsl = neuralNetworkBuilder(s.opt, name, repo)->setLearningRate(s.lr)->setBiasLearningRate(s.blr)->setLossFunction(s.loss);
        std::vector<VP> made;
        for (auto &x: s.v) {
            VP p;
            if (x.in.empty()) {
                if (x.type == convolution2dValid)
                    p = x.output ? dsl->addInputOutputLayer(x.inShape, x.filters, x.kernel, x.type, x.act) : dsl->addInputLayer(x.inShape, x.filters, x.kernel, x.type, x.act);
                else
                    p = x.output ? dsl->addInputOutputLayer(x.inShape, x.outShape, x.type, x.act) : dsl->addInputLayer(x.inShape, x.outShape, x.type, x.act);
            } else if (x.type == concatenate) {
                std::vector<VP> ins;
                for (int i: x.in) ins.push_back(made[i]);
                p = dsl->add_concatenated_layer(ins);
            } else {
                auto from = made[x.in[0]];
                if (x.type == normalize) p = from->addNormalizationLayer();
                else if (x.type == LayerType::dropout) p = from->addDropoutLayer(x.dropout);
                else if (x.type == convolution2dValid)
                    p = x.output ? from->addOutput(x.outShape, x.kernel, x.type, x.act) : from->addLayer(x.filters, x.kernel, x.type, x.act);
                else if (x.output) p = x.outShape[0] * x.outShape[2] > 1 ? from->addOutputLayer(x.outShape, x.act) : from->addOutput(x.outShape[1], x.act);
                else p = from->addLayer(x.outShape, x.type, x.act);
            }
            if (x.type == LayerType::full || x.type == convolution2dValid) {
                p->setUseBias(x.bias)->setUseNormalization(x.norm)->setUseL2Regularization(x.l2)->setRegularizationStrength(x.strength)->setBits((uint8_t) x.bits);
                if (x.set_materialized) p->setMaterialized(x.materialized);
            }
            if (x.clip) p->setNormClippingThreshold(x.clip_threshold);
            made.push_back(p);
        }
        auto nn = made[0]->usingParent(dsl)->build();
        nn->setSilentMode(true);
        return nn;
    }

    typedef std::map<std::string, X> Params;

    inline std::vector<std::string> paramNames(const NetSpec &s) {
        std::vector<std::string> n;
        for (size_t i = 0; i < s.v.size(); i++) {
            std::string id = std::to_string(i + 1);
            if (s.v[i].type == LayerType::full) n.push_back(id + "_full");
            if (s.v[i].type == convolution2dValid) for (size_t f = 0; f < s.v[i].filters; f++) n.push_back(id + "_c2dv_" + std::to_string(f));
            if (s.v[i].bias) n.push_back(id + "_bias");
        }
        return n;
    }

    inline const VSpec &ownerOf(const NetSpec &s, const std::string &param) { return s.v[std::stoul(param) - 1]; }

    inline bool isBias(const std::string &param) { return param.find("_bias") != std::string::npos; }

    // the network's parameters, through the public save
    inline Params readParams(const NetSpec &s, const shared_ptr<NeuralNetworkForTraining> &nn, const std::string &dir) {
        nn->saveKnowledge(dir, "vf_read", true);
        Params p;
        for (auto &n: paramNames(s)) p[n] = toX(make_shared<FullTensor>(dir + "/vf_read/" + n + ".tensor"));
        return p;
    }

    inline void writeParams(const Params &p, const shared_ptr<NeuralNetworkForTraining> &nn, const std::string &dir) {
        std::string k = dir + "/vf_write";
        std::filesystem::remove_all(k);
        std::filesystem::create_directories(k);
        for (auto &e: p) toT(e.second)->save(k + "/" + e.first + ".tensor");
        nn->loadKnowledge(dir, "vf_write");
    }

    inline double sigm(double x) { return x >= 0 ? 1 / (1 + exp(-x)) : exp(x) / (1 + exp(x)); }

    struct Trace { // how close the run came to places where the derivative is undefined
        double kink = 1e300, min_std = 1e300, max_abs = 0;
    };

    inline void activate(X &x, ActivationType a, Trace *t) {
        if (t && (a == relu || a == leaky)) for (auto v: x.v) t->kink = std::min(t->kink, fabs(v));
        if (a == softmax) {
            double m = -1e300, s = 0;
            for (auto v: x.v) m = std::max(m, v);
            for (auto &v: x.v) v = exp(v - m), s += v;
            for (auto &v: x.v) v /= s;
            return;
        }
        for (auto &v: x.v)
            switch (a) {
                case relu: v = std::max(v, 0.0); break;
                case leaky: v = v < 0 ? 0.01 * v : v; break;
                case sigmoid: v = sigm(v); break;
                case sigmoidApprox: v = 0.5 * (v / (1 + fabs(v)) + 1); break;
                case tanhDefault: case tanhApprox: v = tanh(v); break;
                default: break;
            }
    }

    inline void standardise(X &x, Trace *t) {
        double m = 0, s = 0;
        for (auto v: x.v) m += v;
        m /= (double) x.v.size();
        for (auto v: x.v) s += (v - m) * (v - m);
        s = sqrt(s / (double) x.v.size());
        if (t) t->min_std = std::min(t->min_std, s);
        if (s == 0) s = 1;
        for (auto &v: x.v) v = (v - m) / s;
    }

    // what each dropout vertex multiplies by in the current evaluation; none: as in predictions
    inline const std::map<int, std::vector<double>> *dropMasks = nullptr;

    // outputs of every vertex
    inline std::vector<X> eval(const NetSpec &s, const Params &p, const std::vector<X> &inputs, Trace *t = nullptr) {
        std::vector<X> o(s.v.size());
        size_t next = 0;
        for (size_t i = 0; i < s.v.size(); i++) {
            auto &n = s.v[i];
            std::string id = std::to_string(i + 1);
            X in = n.in.empty() ? inputs[next++] : o[n.in[0]];
            X y;
            auto flat = [](const X &a) {
                X f(1, a.v.size(), 1);
                f.v = a.v;
                return f;
            };
            switch (n.type) {
                case LayerType::full: {
                    auto &w = p.at(id + "_full");
                    X f = flat(in);
                    y = X(n.outShape[0], n.outShape[1], n.outShape[2]);
                    for (size_t b = 0; b < w.c; b++) for (size_t a = 0; a < w.r; a++) y.v[b] += f.v[a] * w.at(a, b, 0);
                    break;
                }
                case convolution2dValid: {
                    y = X(in.r - n.kernel + 1, in.c - n.kernel + 1, n.filters);
                    for (size_t f = 0; f < n.filters; f++) {
                        auto &w = p.at(id + "_c2dv_" + std::to_string(f));
                        for (size_t a = 0; a < y.r; a++) for (size_t b = 0; b < y.c; b++)
                            for (size_t ch = 0; ch < in.k; ch++) for (size_t u = 0; u < n.kernel; u++) for (size_t q = 0; q < n.kernel; q++)
                                y.at(a, b, f) += in.at(a + u, b + q, ch) * w.at(u, q, ch);
                    }
                    break;
                }
                case concatenate: {
                    size_t c = 0;
                    for (int j: n.in) c += o[j].c;
                    y = X(in.r, c, in.k);
                    size_t off = 0;
                    for (int j: n.in) {
                        for (size_t ch = 0; ch < y.k; ch++) for (size_t a = 0; a < y.r; a++) for (size_t b = 0; b < o[j].c; b++) y.at(a, off + b, ch) = o[j].at(a, b, ch);
                        off += o[j].c;
                    }
                    break;
                }
                case flatten: y = flat(in); break;
                case normalize: y = in; standardise(y, t); break;
                case LayerType::dropout:
                    y = in;
                    if (dropMasks) for (size_t j = 0; j < y.v.size(); j++) y.v[j] *= dropMasks->at((int) i)[j];
                    break;
                default: y = in;
            }
            if (n.bias) {
                auto &b = p.at(id + "_bias");
                for (size_t j = 0; j < y.v.size(); j++) y.v[j] += b.v[j];
            }
            if (n.norm) standardise(y, t);
            if (n.type == LayerType::full || n.type == convolution2dValid) activate(y, n.act, t);
            if (t) for (auto v: y.v) t->max_abs = std::max(t->max_abs, fabs(v));
            o[i] = y;
        }
        return o;
    }

    // the loss as the library reports it for one output of one record
    inline double lossOf(LossType l, const X &truth, const X &pred, Trace *t = nullptr) {
        double s = 0;
        for (size_t i = 0; i < truth.v.size(); i++) {
            double a = truth.v[i], b = pred.v[i], e = b - a;
            switch (l) {
                case mse: s += e * e; break;
                case mae: s += fabs(e); if (t) t->kink = std::min(t->kink, fabs(e)); break;
                case smae: s += fabs(e) < 1 ? 0.5 * e * e : fabs(e) - 0.5; break;
                case categoricalCrossEntropy: s += -a * log(std::max(b, 1e-8)); break;
                case binaryCrossEntropy:
                    s += -a * log(std::max(b, 1e-8)) - (1 - a) * log(std::max(1 - b, 1e-8));
                    if (t) t->kink = std::min(t->kink, std::min(b, 1 - b));
                    break;
            }
        }
        return l == mse || l == mae || l == smae ? s / (double) truth.v.size() : s;
    }

    // mean losses are differentiated without their 1/n
    inline double stepScale(LossType l, size_t n) { return l == mse || l == mae || l == smae ? (double) n : 1.0; }

    struct Record {
        std::vector<X> given, expected; // expected in the network's output order
    };

    struct GenOptions {
        bool norm = true, kinks = true, conv = true, fan = true, drop = false, low_bits = false, any_loss = true;
    };

    inline NetSpec genNet(const GenOptions &g) {
        auto &r = rng();
        NetSpec s;
        s.loss = g.any_loss ? r.pick(std::vector<LossType>{mse, mse, mae, smae, categoricalCrossEntropy, binaryCrossEntropy}) : mse;
        s.lr = (float) r.real(0.01, 0.3);
        s.blr = (float) r.real(0.01, 0.3);
        auto hiddenAct = [&] {
            return g.kinks ? r.pick(std::vector<ActivationType>{tanhDefault, tanhApprox, sigmoid, sigmoidApprox, linear, relu, leaky})
                           : r.pick(std::vector<ActivationType>{tanhDefault, tanhApprox, sigmoid, sigmoidApprox, linear});
        };
        auto outAct = [&] {
            if (s.loss == categoricalCrossEntropy) return softmax;
            if (s.loss == binaryCrossEntropy) return r.chance(0.7) ? sigmoid : sigmoidApprox;
            return hiddenAct();
        };
        auto deco = [&](VSpec &v) {
            v.bias = r.chance(0.5);
            v.norm = g.norm && r.chance(0.15) && v.outShape[0] * v.outShape[1] * v.outShape[2] > 2;
            v.l2 = r.chance(0.25);
            v.strength = (float) r.real(0.005, 0.2);
            if (g.low_bits) v.bits = r.pick(std::vector<int>{32, 32, 16});
            v.set_materialized = r.chance(0.3);
            v.materialized = r.chance(0.5);
        };
        auto fullV = [&](std::vector<int> in, std::vector<size_t> is, size_t n, bool out, std::vector<size_t> shape = {}) {
            VSpec v;
            v.type = LayerType::full;
            v.in = std::move(in);
            v.inShape = std::move(is);
            v.outShape = shape.empty() ? std::vector<size_t>{1, n, 1} : shape;
            v.output = out;
            v.act = out ? outAct() : hiddenAct();
            deco(v);
            s.v.push_back(v);
            return (int) s.v.size() - 1;
        };
        auto convV = [&](std::vector<int> in, std::vector<size_t> is, size_t f, size_t k, bool out) {
            VSpec v;
            v.type = convolution2dValid;
            v.in = std::move(in);
            v.inShape = is;
            v.filters = f;
            v.kernel = k;
            v.outShape = {is[0] - k + 1, is[1] - k + 1, f};
            v.output = out;
            v.act = out ? outAct() : hiddenAct();
            deco(v);
            s.v.push_back(v);
            return (int) s.v.size() - 1;
        };
        auto plainV = [&](LayerType type, std::vector<int> in, std::vector<size_t> is, std::vector<size_t> os) {
            VSpec v;
            v.type = type;
            v.in = std::move(in);
            v.inShape = std::move(is);
            v.outShape = std::move(os);
            s.v.push_back(v);
            return (int) s.v.size() - 1;
        };
        auto catV = [&](const std::vector<int> &in) {
            size_t c = 0;
            for (int i: in) c += s.v[i].outShape[1];
            return plainV(concatenate, in, s.v[in[0]].outShape, {s.v[in[0]].outShape[0], c, s.v[in[0]].outShape[2]});
        };
        auto outShape = [&](int i) { return s.v[i].outShape; };
        auto size = [&](int i) { return s.v[i].outShape[0] * s.v[i].outShape[1] * s.v[i].outShape[2]; };
        auto rnd = [&](long long a, long long b) { return (size_t) r.range(a, b); };
        auto extras = [&](int i) { // layers that own no weights
            if (g.norm && r.chance(0.12) && size(i) > 2) i = plainV(normalize, {i}, outShape(i), outShape(i));
            if (g.drop && r.chance(0.4)) {
                i = plainV(LayerType::dropout, {i}, outShape(i), outShape(i));
                s.v.back().dropout = (float) r.real(0.1, 0.6);
            }
            return i;
        };
        bool soft = s.loss == categoricalCrossEntropy;
        // ordinary sizes, and now and then large ones (see side)
        auto wid = [&](long long a, long long b) { return (size_t) side(a, b, 24); };
        auto deep = [&](long long a, long long b) { return (size_t) side(a, b, 12); };
        auto img = [&] { return (size_t) side(3, 5, 9); };
        // now and then with several rows and channels
        auto shape = [&](size_t columns) { return r.chance(0.15) ? std::vector<size_t>{rnd(1, 3), columns, rnd(1, 3)} : std::vector<size_t>{1, columns, 1}; };
        auto out = [&](int from) { return fullV({from}, outShape(from), 0, true, shape(wid(soft ? 2 : 1, 4))); };
        std::vector<int> styles{0, 0, 1};
        if (g.conv) styles.insert(styles.end(), {2, 2, 3, 6, 8});
        if (g.fan) styles.insert(styles.end(), {4, 4, 5, 5, 7});
        switch (r.pick(styles)) {
            case 0: { // a chain
                int i = fullV({}, {rnd(1, 2), wid(1, 4), r.chance(0.2) ? (size_t) 2 : (size_t) 1}, 0, false, shape(wid(1, 5)));
                for (long long d = side(0, 2, 11); d > 0; d--) i = extras(i), i = fullV({i}, outShape(i), 0, false, shape(wid(1, 5)));
                i = extras(i);
                out(i);
                break;
            }
            case 1:
                fullV({}, {rnd(1, 2), wid(1, 5), 1}, 0, true, shape(wid(soft ? 2 : 1, 4)));
                break;
            case 2: { // convolutions, then dense
                int i = convV({}, {img(), img(), deep(1, 3)}, deep(1, 3), rnd(1, 3), false);
                if (r.chance(0.5) && std::min(outShape(i)[0], outShape(i)[1]) >= 2) i = convV({i}, outShape(i), rnd(1, 2), rnd(1, 2), false);
                i = extras(i);
                if (r.chance(0.3)) i = fullV({i}, outShape(i), wid(1, 3), false);
                out(i);
                break;
            }
            case 3: { // convolution to the end
                if (soft) s.loss = mse, soft = false;
                int i = convV({}, {img(), img(), deep(1, 2)}, deep(1, 2), rnd(1, 2), false);
                convV({i}, outShape(i), deep(1, 2), rnd(1, 2), true);
                break;
            }
            case 4: { // several inputs joined
                std::vector<int> ins;
                for (long long n = side(2, 3, 11); n > 0; n--) {
                    int i;
                    if (r.chance(0.5)) {
                        std::vector<size_t> is{rnd(1, 2), rnd(1, 3), 1};
                        i = plainV(flatten, {}, is, {1, is[0] * is[1], 1});
                    } else i = fullV({}, {1, wid(1, 3), 1}, wid(1, 3), false);
                    ins.push_back(i);
                }
                for (auto &i: ins) if (r.chance(0.3)) i = fullV({i}, outShape(i), wid(1, 3), false);
                r.shuffle(ins);
                int c = catV(ins);
                if (r.chance(0.5)) c = fullV({c}, outShape(c), wid(1, 3), false);
                out(c);
                if (r.chance(0.3)) out(c);
                break;
            }
            case 5: { // one trunk, several outputs
                int i = fullV({}, {1, wid(1, 4), 1}, wid(2, 4), false);
                if (r.chance(0.4)) i = fullV({i}, outShape(i), wid(2, 4), false);
                i = extras(i);
                long long n = side(2, 3, 11);
                for (long long j = 0; j < n; j++) {
                    int b = i;
                    if (r.chance(0.3)) b = fullV({b}, outShape(b), wid(1, 3), false);
                    out(b);
                }
                break;
            }
            case 6: { // two convolution branches of the same picture, joined side by side
                int i = convV({}, {4, 4, rnd(1, 2)}, rnd(1, 2), 2, false);
                size_t f = rnd(1, 2), k = rnd(1, 2);
                int a = convV({i}, outShape(i), f, k, false), b = convV({i}, outShape(i), f, k, false);
                std::vector<int> ins{a, b};
                r.shuffle(ins);
                out(catV(ins));
                break;
            }
            case 8: { // from a few values to a picture, which is then looked at
                int i = fullV({}, {1, wid(1, 4), 1}, 0, false, {rnd(2, 4), rnd(2, 4), rnd(1, 3)});
                i = extras(i);
                i = convV({i}, outShape(i), rnd(1, 2), rnd(1, 2), false);
                out(i);
                break;
            }
            default: { // a diamond
                int i = fullV({}, {1, wid(1, 4), 1}, wid(1, 4), false);
                int a = fullV({i}, outShape(i), wid(1, 3), false), b = fullV({i}, outShape(i), wid(1, 3), false);
                if (r.chance(0.5)) b = fullV({b}, outShape(b), wid(1, 3), false);
                std::vector<int> ins{a, b};
                if (r.chance(0.4)) ins.push_back(i);
                r.shuffle(ins);
                int c = catV(ins);
                if (r.chance(0.3)) out(a);
                out(c);
            }
        }
        return s;
    }

    inline Params randParams(const NetSpec &s, const Params &shape) {
        Params p = shape;
        for (auto &e: p) {
            double lim = isBias(e.first) ? 0.8 : 1.4 / sqrt((double) std::max<size_t>(1, e.second.r * (e.first.find("c2dv") != std::string::npos ? e.second.c * e.second.k : 1)));
            for (auto &x: e.second.v) x = (double) (float) rng().real(-lim, lim);
        }
        return p;
    }

    inline Record randRecord(const NetSpec &s) {
        Record r;
        for (auto &is: s.inputShapes()) r.given.push_back(randX(is[0], is[1], is[2], -1.5, 1.5));
        for (int o: s.outputOrder()) {
            auto &os = s.v[o].outShape;
            X t(os[0], os[1], os[2]);
            if (s.loss == categoricalCrossEntropy) t.v[rng().range(0, (long long) t.v.size() - 1)] = 1;
            else if (s.loss == binaryCrossEntropy) for (auto &x: t.v) x = (double) rng().range(0, 1);
            else t = randX(os[0], os[1], os[2], -1.5, 1.5);
            r.expected.push_back(t);
        }
        return r;
    }

    inline shared_ptr<InMemoryTrainingDataSet> dataset(const std::vector<Record> &rs) {
        auto d = make_shared<InMemoryTrainingDataSet>();
        for (auto &r: rs) {
            std::vector<T> g, e;
            for (auto &x: r.given) g.push_back(toT(x));
            for (auto &x: r.expected) e.push_back(toT(x));
            d->addTrainingData(g, e);
        }
        return d;
    }

    // gradient of the summed (per element) loss averaged over the records, by central differences in double precision
    inline Params gradient(const NetSpec &s, const Params &p, const std::vector<Record> &rs, size_t limit = 0) {
        auto order = s.outputOrder();
        auto objective = [&](const Params &q) {
            double t = 0;
            for (auto &r: rs) {
                auto o = eval(s, q, r.given);
                for (size_t j = 0; j < order.size(); j++) t += stepScale(s.loss, r.expected[j].v.size()) * lossOf(s.loss, r.expected[j], o[order[j]]);
            }
            return t / (double) rs.size();
        };
        Params g = p;
        Params q = p;
        for (auto &e: q)
            for (size_t i = 0; i < e.second.v.size(); i++) {
                if (limit && e.second.v.size() > limit && rng().range(0, (long long) e.second.v.size() - 1) >= (long long) limit) {
                    g[e.first].v[i] = NAN; // not computed: a large tensor is sampled
                    continue;
                }
                double old = e.second.v[i], h = 1e-5;
                e.second.v[i] = old + h;
                double up = objective(q);
                e.second.v[i] = old - h;
                double down = objective(q);
                e.second.v[i] = old;
                g[e.first].v[i] = (up - down) / (2 * h);
            }
        for (auto &e: g) {
            auto &own = ownerOf(s, e.first);
            if (own.l2 && !isBias(e.first)) for (size_t i = 0; i < e.second.v.size(); i++) e.second.v[i] += own.strength * p.at(e.first).v[i];
        }
        return g;
    }

    inline Trace traceOf(const NetSpec &s, const Params &p, const std::vector<Record> &rs) {
        Trace t;
        auto order = s.outputOrder();
        for (auto &r: rs) {
            auto o = eval(s, p, r.given, &t);
            for (size_t j = 0; j < order.size(); j++) lossOf(s.loss, r.expected[j], o[order[j]], &t);
        }
        return t;
    }

    inline shared_ptr<ExitStrategy> epochs(size_t n) { // exactly n epochs, whatever the loss does
        return make_shared<DefaultExitStrategy>(1000000, NINETY_DAYS_MS, n, -1e30f, 0.0f, n, 1e30f);
    }

    inline std::string show(const X &x) {
        std::ostringstream o;
        o.precision(7);
        o << x.r << "x" << x.c << "x" << x.k << "[";
        for (size_t i = 0; i < x.v.size() && i < 24; i++) o << (i ? " " : "") << x.v[i];
        o << (x.v.size() > 24 ? " ...]" : "]");
        return o.str();
    }
}
#endif
