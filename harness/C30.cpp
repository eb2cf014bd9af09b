// C30: what can't be computed is refused, and what is accepted is computed in the shape it was declared to have.
#include <bits/stdc++.h>
#include "lang.hpp"
#include "nets.hpp"

using namespace happyml;
using std::string;
using std::to_string;
using std::vector;
using vf::rng;
using vf::X;
typedef shared_ptr<NeuralNetworkForTraining> Net;
typedef vector<size_t> Shape;

static string str(const Shape &s) {
    string r = "(";
    for (auto x: s) r += (r.size() > 1 ? "," : "") + to_string(x);
    return r + ")";
}

static size_t volume(const Shape &s) { return s[0] * s[1] * s[2]; }

static bool sound(const Shape &s) { return s.size() == 3 && s[0] && s[1] && s[2]; }

static vf::T tensor(const Shape &s) { return vf::toT(vf::randX(s[0], s[1], s[2], -1.5, 1.5)); }

static Shape shape(double flaw) {
    auto &g = rng();
    Shape s{(size_t) g.range(1, 3), (size_t) g.range(1, 5), (size_t) (g.chance(0.7) ? 1 : g.range(2, 3))};
    if (g.chance(0.4)) s[0] = 1;
    if (g.chance(flaw)) {
        if (g.chance(0.7)) s[(size_t) g.range(0, 2)] = 0;
        else if (g.chance(0.5)) s.pop_back();
        else s.push_back(1);
    }
    return s;
}

// the outputs have the declared shapes, and numbers in them
static string wrong(const vector<vf::T> &out, const vector<Shape> &declared) {
    if (out.size() != declared.size()) return to_string(out.size()) + " outputs instead of " + to_string(declared.size());
    for (size_t i = 0; i < out.size(); i++) {
        if (!out[i]) return "no output " + to_string(i);
        Shape s{out[i]->rowCount(), out[i]->columnCount(), out[i]->channelCount()};
        if (s != declared[i]) return "output " + to_string(i) + " is " + str(s) + " instead of " + str(declared[i]);
        for (auto v: vf::toX(out[i]).v) if (!std::isfinite(v)) return "output " + to_string(i) + " has " + to_string(v);
    }
    return "";
}

static string bits(const vector<vf::T> &out) {
    string r;
    for (auto &t: out) {
        r += str({t->rowCount(), t->columnCount(), t->channelCount()});
        for (auto v: vf::toX(t).v) {
            float f = (float) v;
            r.append((const char *) &f, sizeof f);
        }
    }
    return r;
}

// quiet, as networks that are built by the language talk
struct Quiet {
    std::stringstream sink;
    std::streambuf *was;

    Quiet() : was(std::cout.rdbuf(sink.rdbuf())) {}

    ~Quiet() { std::cout.rdbuf(was); }
};

static bool refuses(const std::function<void()> &what, string *why = nullptr) {
    Quiet q;
    try {
        what();
    } catch (std::bad_alloc &) {
        throw;
    } catch (std::length_error &) {
        throw; // a size that is too large to be one isn't an explanation
    } catch (std::exception &e) {
        if (why) *why = e.what();
        return true;
    }
    return false;
}

static void definitions() {
    auto &g = rng();
    double flaw = g.pick(vector<double>{0, 0.04, 0.1});
    auto dsl = neuralNetworkBuilder(g.pick(vector<OptimizerType>{sgd, sgdm, adam}), "m", vf::freshDir("definitions"));
    struct V {
        shared_ptr<HappymlDSL::NNVertex> p;
        Shape out;
        bool output = false, used = false;
    };
    vector<V> v;
    vector<Shape> inputs;
    string said, flawed; // the definition, and what is wrong with it
    auto act = [&] { return g.pick(vector<ActivationType>{relu, tanhDefault, sigmoid, linear, leaky, softmax}); };
    // a step of the definition: what it is, what is wrong with it, and the way to take it
    auto step = [&](const string &what, const string &problem, const std::function<shared_ptr<HappymlDSL::NNVertex>()> &take, const Shape &out, bool output) {
        said += what + (problem.empty() ? "" : " [" + problem + "]") + "; ";
        if (!problem.empty()) flawed = problem;
        V x;
        x.p = take();
        x.out = out;
        x.output = output;
        if (problem.empty()) {
            Shape told = x.p->getOutputShape();
            vf::check(told == out, "definitions:shape", said + " is said to be " + str(told));
        }
        v.push_back(x);
    };
    auto convolved = [](const Shape &in, size_t f, size_t k) { return Shape{in[0] - k + 1, in[1] - k + 1, f}; };
    auto convProblem = [&](const Shape &in, size_t f, size_t k) -> string {
        if (!sound(in)) return "shape";
        if (!f) return "no filters";
        if (!k) return "no kernel";
        if (k > in[0] || k > in[1]) return "kernel";
        return "";
    };
    auto kernel = [&](const Shape &in) {
        if (g.chance(flaw * 2)) return (size_t) g.range(0, 12);
        return in.size() == 3 && in[0] && in[1] ? (size_t) g.range(1, (long long) std::min(in[0], in[1])) : (size_t) 1;
    };
    auto filters = [&] { return g.chance(flaw) ? (size_t) 0 : (size_t) g.range(1, 3); };
    // an input
    auto input = [&](bool output) {
        Shape in = shape(flaw);
        if (g.chance(0.3) && sound(in)) in[0] = (size_t) g.range(2, 5), in[1] = (size_t) g.range(2, 5);
        switch (g.range(0, 3)) {
            case 0: {
                size_t f = filters(), k = kernel(in);
                string problem = convProblem(in, f, k);
                auto a = act();
                step("input " + str(in) + " convolution " + to_string(f) + " filters of " + to_string(k), problem, [&] {
                    return output ? dsl->addInputOutputLayer(in, f, k, convolution2dValid, a) : dsl->addInputLayer(in, f, k, convolution2dValid, a);
                }, problem.empty() ? convolved(in, f, k) : Shape{}, output);
                break;
            }
            case 1: {
                if (output) return false;
                Shape out = sound(in) ? Shape{1, volume(in), 1} : shape(0);
                if (g.chance(flaw)) out[1]++;
                string problem = !sound(in) || !sound(out) ? "shape" : out != Shape{1, volume(in), 1} ? "flattened" : "";
                step("input " + str(in) + " flatten " + str(out), problem, [&] { return dsl->addInputLayer(in, out, flatten, linear); }, out, false);
                break;
            }
            default: {
                Shape out = shape(flaw);
                string problem = !sound(in) || !sound(out) ? "shape" : "";
                auto a = act();
                step("input " + str(in) + " full " + str(out), problem, [&] { return output ? dsl->addInputOutputLayer(in, out, LayerType::full, a) : dsl->addInputLayer(in, out, LayerType::full, a); }, out, output);
            }
        }
        inputs.push_back(in);
        return true;
    };
    // a layer on top of one that is there
    auto next = [&](size_t from, bool output) {
        auto &f = v[from];
        if (f.output && !g.chance(flaw)) return;
        string problem = f.output ? "after an output" : "", name = "#" + to_string(from) + " ";
        Shape in = f.out;
        f.used = true;
        auto p = f.p;
        int kind = (int) g.range(0, output ? 4 : 7);
        if (kind < 3) {
            Shape out = shape(flaw);
            if (!sound(out)) problem = "shape";
            auto a = act();
            step(name + (output ? "output " : "full ") + str(out), problem, [&] { return output ? p->addOutputLayer(out, a) : p->addLayer(out, LayerType::full, a); }, out, output);
        } else if (kind < 5) {
            size_t n = filters(), k = kernel(in);
            string c = convProblem(in, n, k);
            if (!c.empty()) problem = c;
            Shape out = c.empty() ? convolved(in, n, k) : Shape{};
            Shape told = c.empty() ? out : Shape{1, 1, n};
            if (output && g.chance(flaw)) {
                told[(size_t) g.range(0, 1)]++;
                problem = "declared output";
            }
            auto a = act();
            step(name + "convolution " + to_string(n) + " filters of " + to_string(k) + (output ? " output " + str(told) : ""), problem, [&] {
                return output ? p->addOutput(told, k, convolution2dValid, a) : p->addLayer(n, k, convolution2dValid, a);
            }, out, output);
        } else if (kind == 5) {
            step(name + "normalization", problem, [&] { return p->addNormalizationLayer(); }, in, false);
        } else if (kind == 6) {
            float rate = g.chance(flaw) ? g.pick(vector<float>{-0.1f, 1.5f, -3}) : (float) g.real(0.05, 0.9);
            if (rate < 0 || rate > 1) problem = "rate";
            step(name + "dropout " + to_string(rate), problem, [&] { return p->addDropoutLayer(rate); }, in, false);
        } else {
            Shape out{1, volume(in), 1};
            if (g.chance(flaw)) out[1] += 1, problem = "flattened";
            step(name + "flatten " + str(out), problem, [&] { return p->addLayer(out, flatten, linear); }, out, false);
        }
    };
    auto join = [&] {
        vector<size_t> usable;
        for (size_t i = 0; i < v.size(); i++) if (!v[i].output) usable.push_back(i);
        if (usable.empty()) return;
        g.shuffle(usable);
        vector<size_t> ins;
        bool careless = g.chance(flaw * 2);
        for (auto i: usable)
            if (ins.size() < 4 && (careless || (v[i].out[0] == v[usable[0]].out[0] && v[i].out[2] == v[usable[0]].out[2]))) ins.push_back(i);
        if (careless && g.chance(0.3)) ins.resize(1);
        if (careless && g.chance(0.2)) ins.clear();
        if (ins.size() < 2 && !careless) return;
        string problem, what = "join";
        if (ins.size() < 2) problem = "few";
        vector<shared_ptr<HappymlDSL::NNVertex>> ps;
        Shape out{0, 0, 0};
        for (auto i: ins) {
            if (v[i].out[0] != v[ins[0]].out[0] || v[i].out[2] != v[ins[0]].out[2]) problem = "different";
            out = {v[i].out[0], out[1] + v[i].out[1], v[i].out[2]};
            ps.push_back(v[i].p);
            v[i].used = true;
            what += " #" + to_string(i);
        }
        step(what, problem, [&] { return dsl->add_concatenated_layer(ps); }, out, false);
    };
    auto inputsJoined = [&] {
        vector<Shape> ins;
        string problem;
        size_t width = 0;
        string what = "inputs";
        for (long long n = g.range(g.chance(flaw) ? 0 : 2, 4); n > 0; n--) {
            ins.push_back(shape(flaw / 2));
            what += " " + str(ins.back());
            if (!sound(ins.back())) problem = "shape";
            else width += volume(ins.back());
        }
        if (ins.size() < 2) problem = "few";
        step(what + " joined", problem, [&] { return dsl->add_concatenated_input_layer(ins); }, {1, width, 1}, false);
        inputs.insert(inputs.end(), ins.begin(), ins.end());
    };

    Net nn;
    string why;
    bool refused = refuses([&] {
        if (g.chance(flaw)) flawed = "nothing"; // no network at all
        else {
            if (g.chance(0.25)) inputsJoined();
            else for (long long n = g.range(1, 3), i = 0; i < n; i++) if (!input(false)) i--;
            if (g.chance(0.1)) input(true);
            for (long long n = g.range(0, 4); n > 0; n--) {
                if (g.chance(0.35)) join();
                else next((size_t) g.range(0, (long long) v.size() - 1), g.chance(0.25));
            }
            // everything leads somewhere
            bool loose = g.chance(flaw);
            for (size_t i = 0, n = v.size(); i < n; i++)
                if (!v[i].used && !v[i].output) {
                    if (loose && g.chance(0.5)) flawed = "loose end", said += "#" + to_string(i) + " is left; ";
                    else {
                        Shape out = shape(0);
                        v[i].used = true;
                        auto p = v[i].p;
                        step("#" + to_string(i) + " output " + str(out), "", [&] { return p->addOutputLayer(out, linear); }, out, true);
                    }
                }
        }
        nn = dsl->build();
    }, &why);
    vf::nontrivial(said);
    vf::sample(said + (flawed.empty() ? "" : "-> " + why));
    if (!flawed.empty()) {
        vf::count("flawed definitions");
        vf::count("flaw: " + flawed);
        vf::check(refused, "definitions:accepted " + flawed, said);
        return;
    }
    if (!vf::check(!refused, "definitions:refused", said + why)) return;
    vf::count("sound definitions");
    nn->setSilentMode(true);
    // the outputs in the order in which the network has them
    vector<vf::T> in;
    for (auto &s: inputs) in.push_back(tensor(s));
    vector<vf::T> out;
    string reason;
    if (!vf::check(!refuses([&] { out = nn->predict(in); }, &reason), "definitions:prediction", said + reason)) return;
    std::multiset<Shape> expected, got;
    for (auto &x: v) if (x.output) expected.insert(x.out);
    vector<Shape> shapes;
    for (auto &t: out) {
        Shape s{t->rowCount(), t->columnCount(), t->channelCount()};
        got.insert(s);
        shapes.push_back(s);
    }
    vf::check(expected == got, "definitions:outputs", said);
    vf::check(wrong(out, shapes).empty(), "definitions:values", said + wrong(out, shapes));
    string before = bits(out);
    // it can be saved, loaded, and trained
    Net again;
    if (vf::check(!refuses([&] {
            nn->saveWithOverwrite();
            again = loadNeuralNetworkForTraining("m", nn->get_repoRootPath());
        }, &reason), "definitions:saving", said + reason))
        vf::check(bits(again->predict(in)) == before, "definitions:saved", said);
    auto data = make_shared<InMemoryTrainingDataSet>();
    vector<vf::T> truth;
    for (auto &s: shapes) truth.push_back(vf::toT(vf::randX(s[0], s[1], s[2], 0, 1)));
    data->addTrainingData(in, truth);
    data->addTrainingData(in, truth);
    nn->setExitStrategy(vf::epochs(1));
    if (vf::check(!refuses([&] { nn->train(data, (int) g.range(1, 2), last); }, &reason), "definitions:training", said + reason))
        vf::check(wrong(nn->predict(in), shapes).empty(), "definitions:trained", said + wrong(nn->predict(in), shapes));
}

// a shape that isn't s
static Shape other(const Shape &s) {
    auto &g = rng();
    while (true) {
        Shape o = s;
        switch (g.range(0, 4)) {
            case 0: o = {1, volume(s), 1}; break;      // the same values
            case 1: std::swap(o[0], o[1]); break;
            case 2: std::swap(o[0], o[2]); break;
            default: {
                size_t i = (size_t) g.range(0, 2);
                o[i] = std::max<size_t>(1, (size_t) ((long long) o[i] + g.pick(vector<long long>{-1, 1, 1, 2, 5})));
            }
        }
        if (o != s) return o;
    }
}

struct Known { // a network, something to ask it, and its answer
    vf::NetSpec s;
    Net nn;
    vector<Shape> in, out;
    vector<vf::T> given;
    string answer;

    explicit Known(const string &dir) {
        vf::GenOptions go;
        go.drop = rng().chance(0.3);
        s = vf::genNet(go);
        s.opt = rng().pick(vector<OptimizerType>{sgd, sgdm, adam});
        nn = vf::build(s, "m", vf::freshDir(dir));
        in = s.inputShapes();
        for (int o: s.outputOrder()) out.push_back(s.v[o].outShape);
        for (auto &x: in) given.push_back(tensor(x));
        auto a = nn->predict(given);
        vf::check(wrong(a, out).empty(), dir + ":shape", s.str() + wrong(a, out));
        answer = bits(a);
    }

    // something to give, or to expect, that doesn't fit
    static vector<Shape> misfit(const vector<Shape> &fit, string &how) {
        auto &g = rng();
        auto r = fit;
        size_t i = (size_t) g.range(0, (long long) r.size() - 1);
        double d = g.unit();
        if (d < 0.15) how = "one more", r.push_back(g.pick(fit));
        else if (d < 0.3) how = "one less", r.pop_back();
        else if (d < 0.5 && r.size() > 1) {
            size_t j = (size_t) g.range(0, (long long) r.size() - 1);
            how = "exchanged";
            std::swap(r[i], r[j]);
        }
        if (r == fit) how = "shape", r[i] = other(r[i]);
        return r;
    }
};

static vector<vf::T> tensors(const vector<Shape> &s) {
    vector<vf::T> r;
    for (auto &x: s) r.push_back(tensor(x));
    return r;
}

static string strs(const vector<Shape> &s) {
    string r;
    for (auto &x: s) r += str(x);
    return r;
}

int main() {
    vf::rule("A case is a distinct definition of a network, or network with data that doesn't fit it, or dataset with the network that is made for it.");
    vf::bigEvery(20);
    vf::require("flawed definitions", 100);
    vf::require("sound definitions", 300);
    vf::require("refused inputs", 200);
    vf::require("refused data", 200);
    vf::require("networks of tasks", 50);

    vf::section("definitions", 2400, 20000, definitions);

    vf::section("given", 240, 2400, [] {
        Known k("given");
        for (int n = 0; n < 6; n++) {
            string how;
            auto m = Known::misfit(k.in, how);
            auto bad = tensors(m);
            vector<vf::T> out;
            vf::check(refuses([&] { for (auto &t: (out = k.nn->predict(bad))) t->getValue(0); }), "given:accepted " + how, k.s.str() + " was given " + strs(m));
            vf::check(bits(k.nn->predict(k.given)) == k.answer, "given:changed", k.s.str() + " after it was given " + strs(m));
            vf::count("refused inputs");
            vf::nontrivial(k.s.str() + strs(m));
        }
    });

    vf::section("data", 240, 2400, [] {
        auto &g = rng();
        Known k("data");
        k.nn->setExitStrategy(vf::epochs((size_t) g.range(1, 2)));
        string repo = k.nn->get_repoRootPath();
        size_t n = (size_t) g.range(1, 5);
        auto make = [&](const vector<Shape> &given, const vector<Shape> &expected, size_t records) {
            auto d = make_shared<InMemoryTrainingDataSet>();
            for (size_t i = 0; i < records; i++) {
                vector<vf::T> e;
                for (auto &s: expected) e.push_back(vf::toT(vf::randX(s[0], s[1], s[2], 0, 1)));
                d->addTrainingData(tensors(given), e);
            }
            return d;
        };
        auto fitting = make(k.in, k.out, n);
        for (int i = 0; i < 4; i++) {
            string how;
            bool given = g.chance(0.4);
            auto gs = given ? Known::misfit(k.in, how) : k.in, es = given ? k.out : Known::misfit(k.out, how);
            auto bad = make(gs, es, n);
            string use = g.pick(vector<string>{"train", "train", "test data", "test"});
            string said = k.s.str() + " " + use + " with given " + strs(gs) + " and expected " + strs(es);
            auto before = ds::tree(repo);
            auto policy = g.chance(0.5) ? best : last;
            vf::check(refuses([&] {
                if (use == "train") k.nn->train(bad, (int) g.range(1, (long long) n), policy);
                else if (use == "test data") k.nn->train(fitting, bad, (int) g.range(1, (long long) n), policy);
                else k.nn->test(bad);
            }), "data:accepted " + use + " " + (given ? "given " : "expected ") + how, said);
            vf::check(bits(k.nn->predict(k.given)) == k.answer, "data:changed " + use, said);
            vf::check(ds::difference(before, ds::tree(repo)).empty(), "data:left files " + use, said + ds::difference(before, ds::tree(repo)));
            vf::count("refused data");
            vf::nontrivial(said);
        }
        // it can still be trained, as one that was never given anything else
        if (k.s.loss == categoricalCrossEntropy || k.s.loss == binaryCrossEntropy) return;
        for (auto &v: k.s.v) if (v.type == LayerType::dropout) return; // what is dropped is random
        auto fresh = vf::build(k.s, "m", vf::freshDir("data2"));
        for (auto nn: {k.nn, fresh}) {
            auto d = make_shared<InMemoryTrainingDataSet>();
            vector<vf::T> e;
            for (auto &s: k.out) {
                X x(s[0], s[1], s[2]);
                for (size_t i = 0; i < x.v.size(); i++) x.v[i] = 0.1 * (double) (i % 7);
                e.push_back(vf::toT(x));
            }
            d->addTrainingData(k.given, e);
            nn->setExitStrategy(vf::epochs(1));
            nn->train(d, 1, last);
        }
        vf::check(bits(k.nn->predict(k.given)) == bits(fresh->predict(k.given)), "data:training afterwards", k.s.str());
    });

    // one record among others doesn't fit
    vf::section("records", 120, 1200, [] {
        auto &g = rng();
        Known k("records");
        k.nn->setExitStrategy(vf::epochs(1));
        size_t n = (size_t) g.range(2, 6), odd = (size_t) g.range(0, (long long) n - 1);
        string how;
        bool given = g.chance(0.5);
        auto gs = given ? Known::misfit(k.in, how) : k.in, es = given ? k.out : Known::misfit(k.out, how);
        auto d = make_shared<InMemoryTrainingDataSet>();
        for (size_t i = 0; i < n; i++) {
            vector<vf::T> e;
            for (auto &s: i == odd ? es : k.out) e.push_back(vf::toT(vf::randX(s[0], s[1], s[2], 0, 1)));
            d->addTrainingData(tensors(i == odd ? gs : k.in), e);
        }
        bool test = g.chance(0.3);
        string said = k.s.str() + " record " + to_string(odd) + " of " + to_string(n) + " has given " + strs(gs) + " and expected " + strs(es);
        vf::check(refuses([&] { if (test) k.nn->test(d); else k.nn->train(d, (int) g.range(1, (long long) n), last); }), string("records:accepted ") + (test ? "test " : "train ") + (given ? "given " : "expected ") + how, said);
        vf::count("refused data");
        vf::nontrivial(said);
    });

    vf::section("names", 60, 400, [] {
        auto &g = rng();
        static const string fine = "abcxyzABCXYZ0189_", bad = "./\\ -:*?\"'\t\n~$%&;\xc3\xa9";
        string name;
        for (long long n = g.range(0, 8); n > 0; n--) name += fine[(size_t) g.range(0, (long long) fine.size() - 1)];
        bool ok = !name.empty();
        if (g.chance(0.5)) {
            ok = false;
            string x = g.chance(0.4) ? g.pick(vector<string>{"..", ".", "/", "../x", "/tmp/x", "a/b"}) : string(1, bad[(size_t) g.range(0, (long long) bad.size() - 1)]);
            name.insert((size_t) g.range(0, (long long) name.size()), x);
        }
        string why;
        shared_ptr<HappymlDSL> dsl;
        bool later = g.chance(0.5);
        bool refused = refuses([&] {
            dsl = later ? neuralNetworkBuilder(sgd, "m", "repo")->setModelName(name) : neuralNetworkBuilder(sgd, name, "repo");
        }, &why);
        vf::check(refused == !ok, ok ? "names:refused" : name.empty() ? "names:empty" : "names:accepted", "\"" + name + "\" " + why);
        vf::nontrivial(name);
    });

    // the networks that the language makes for its tasks
    vf::section("networks of tasks", 130, 1300, [] {
        auto &g = rng();
        lang::World w("w");
        auto s = ds::make(6, true, true, 3);
        for (auto &c: s.cols) {
            // pictures are learned from in another way when there is nothing else
            if (s.of("given").size() == 1 && c.use == "given" && g.chance(0.5) && c.type == "number") c.type = "image";
        }
        size_t pos = 0;
        for (auto &c: s.cols) {
            c.name = "c" + to_string(pos);
            if (c.type == "image") c.rows = (size_t) g.range(1, 7), c.columns = (size_t) g.range(1, 7);
            c.start = pos;
            pos += c.width();
        }
        s.width = pos;
        for (auto &r: s.records) {
            r.assign(pos, "");
            for (auto &c: s.cols) for (size_t k = 0; k < c.width(); k++) r[c.start + k] = c.type == "label" ? g.pick(vector<string>{"yes", "no", "maybe"}) : to_string(g.range(0, 255));
        }
        ds::render(s);
        vf::writeFile(w.dir + "/data/d.csv", s.text);
        auto made = lang::script(w, ds::statement(s, "d", "file://../data/d.csv") + "\n");
        if (!vf::check(vf::exists(w.set("d")), "networks of tasks:dataset", made.how + made.err + made.out)) return;
        Quiet quiet;
        auto set = make_shared<BinaryDataSet>(w.set("d"));
        BinaryDatasetReader reader(w.set("d"));
        auto loss = g.pick(vector<LossType>{mse, mae, smae, categoricalCrossEntropy, binaryCrossEntropy});
        double complexity = g.pick(vector<double>{0.05, 0.3, 0.5, 0.9, 1, 1.25, 2.4, 8});
        string goal = g.pick(vector<string>{"speed", "memory", "accuracy"});
        string said = ds::statement(s, "d", "") + " " + goal + " complexity " + to_string(complexity) + " " + lossTypeToString(loss);
        vector<Shape> in = set->getGivenShapes(), out = set->getExpectedShapes();
        string why;
        Net nn;
        if (!vf::check(!refuses([&] {
            nn = build_neural_network_for_label("t", vf::freshDir("tasks"), goal, set, reader, 0.0f, g.pick(vector<OptimizerType>{sgd, adam, sgdm}), loss,
                                                g.pick(vector<ActivationType>{relu, tanhDefault, leaky, sigmoid}), complexity);
        }, &why), "networks of tasks:refused", said + ": " + why)) return;
        nn->setSilentMode(true);
        nn->setExitStrategy(vf::epochs(1));
        if (!vf::check(!refuses([&] { nn->train(set, (int) g.range(1, 2), last); }, &why), "networks of tasks:training", said + ": " + why)) return;
        auto decoders = build_expected_decoders(false, reader);
        set->restart();
        while (auto r = set->nextRecord()) {
            vector<vf::T> p;
            if (!vf::check(!refuses([&] { p = nn->predict(r->getGiven()); }, &why), "networks of tasks:prediction", said + ": " + why)) return;
            vf::check(wrong(p, out).empty(), "networks of tasks:outputs", said + ": " + wrong(p, out));
            for (size_t i = 0; i < decoders.size() && i < p.size(); i++) {
                string best = decoders[i]->decodeBest(p[i]);
                auto label = s.of("expected")[i];
                if (label->type == "label") vf::check(best == "yes" || best == "no" || best == "maybe" , "networks of tasks:label", said + ": " + best);
            }
        }
        vf::count("networks of tasks");
        vf::nontrivial(said);
    });
    return vf::main();
}
