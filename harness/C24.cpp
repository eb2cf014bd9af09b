// C24: hyperparameter search returns the best candidate it evaluated.
#include <bits/stdc++.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "lang/interpreter.hpp"
#include "ml/hyperband/hyperband.hpp"
#include "nets.hpp"

using namespace happyml;
using vf::rng;
using vf::X;

// The search removes the models it evaluated when it ends. While this names a folder, a file of a temporary model
// that is removed is moved there, so that what was evaluated can be examined.
static string keep;
static mutex keeping;

extern "C" int unlinkat(int dir, const char *path, int flags) {
    auto really = [&] { return (int) syscall(SYS_unlinkat, dir, path, flags); };
    if (keep.empty() || flags) return really();
    string full = path;
    if (dir != AT_FDCWD) {
        char of[PATH_MAX];
        auto n = readlink(("/proc/self/fd/" + to_string(dir)).c_str(), of, sizeof of);
        if (n < 0) return really();
        full = string(of, (size_t) n) + "/" + path;
    }
    auto at = full.find("/temp_");
    if (at == string::npos) return really();
    lock_guard<mutex> guard(keeping);
    string to = keep + full.substr(at);
    for (size_t i = keep.size() + 1; (i = to.find('/', i)) != string::npos; i++) mkdir(to.substr(0, i).c_str(), 0700);
    return renameat(dir, path, AT_FDCWD, to.c_str());
}

typedef shared_ptr<Hyperparameters> Config;

struct Silence {
    streambuf *a = cerr.rdbuf(), *b = cout.rdbuf();
    ostringstream sink;

    Silence() {
        cerr.rdbuf(sink.rdbuf());
        cout.rdbuf(sink.rdbuf());
    }

    ~Silence() {
        cerr.rdbuf(a);
        cout.rdbuf(b);
    }
};

struct Problem {
    LossType loss;
    size_t inputs, outputs, rows;
    bool images;
    vector<vector<float>> in;
};

// a dataset that can partly be learned
static Problem problem(const string &path, bool hopeless = false) {
    auto &g = rng();
    Problem p;
    p.loss = hopeless ? mse : g.pick(vector<LossType>{categoricalCrossEntropy, categoricalCrossEntropy, mse, binaryCrossEntropy});
    p.images = !hopeless && g.chance(0.15);
    p.inputs = (size_t) g.range(1, 3);
    p.outputs = p.loss == categoricalCrossEntropy ? (size_t) g.range(2, 3) : 1;
    p.rows = (size_t) g.range(12, 30);
    vector<shared_ptr<BinaryColumnMetadata>> given, expected;
    auto column = [](char purpose, size_t rows, size_t columns, const string &name) {
        auto m = make_shared<BinaryColumnMetadata>();
        *m = BinaryColumnMetadata{};
        m->purpose = purpose;
        m->rows = rows;
        m->columns = columns;
        m->channels = 1;
        m->source_column_count = rows * columns;
        m->name = name;
        m->standard_deviation = 1;
        m->max_value = 1;
        return m;
    };
    bool split = !p.images && g.chance(0.3); // one given column per number
    auto high = (size_t) g.range(1, 9), wide = (size_t) g.range(1, 9);
    if (p.images) given.push_back(column('I', high, wide, "picture"));
    else if (split) for (size_t i = 0; i < p.inputs; i++) given.push_back(column('N', 1, 1, "n" + to_string(i)));
    else given.push_back(column('N', 1, p.inputs, "n"));
    expected.push_back(column(p.loss == categoricalCrossEntropy ? 'L' : 'N', 1, p.outputs, "e"));
    if (p.loss == categoricalCrossEntropy) for (size_t i = 0; i < p.outputs; i++) expected[0]->ordered_labels.push_back("l" + to_string(i));
    BinaryDatasetWriter w(path, given, expected, 0);
    for (size_t r = 0; r < p.rows; r++) {
        vector<shared_ptr<BaseTensor>> a, b;
        double sum = 0;
        if (p.images) {
            vector<vector<float>> v(high, vector<float>(wide));
            for (auto &row: v) for (auto &x: row) x = (float) g.range(0, 255) / 255.f, sum += x / (double) (high * wide);
            a.push_back(pixelTensor({v}));
        } else {
            vector<float> v(p.inputs);
            for (auto &x: v) x = (float) g.real(0, 1), sum += x / (double) p.inputs;
            if (split) for (auto x: v) a.push_back(tensor({{{x}}}));
            else a.push_back(tensor({{v}}));
        }
        vector<float> e(p.outputs, 0.f);
        if (p.loss == categoricalCrossEntropy) e[g.chance(0.8) ? min(p.outputs - 1, (size_t) (sum * (double) p.outputs)) : (size_t) g.range(0, (long long) p.outputs - 1)] = 1;
        else if (p.loss == binaryCrossEntropy) e[0] = sum > 0.5;
        else e[0] = hopeless ? (float) g.real(0, 1) : (float) sum;
        b.push_back(tensor({{e}}));
        w.writeRow(a, b);
    }
    w.close();
    return p;
}

static shared_ptr<HyperparameterSpace> space() {
    auto &g = rng();
    auto s = make_shared<HyperparameterSpace>(4);
    s->learning_rate_space.clear();
    for (int i = 0; i < 12; i++) s->learning_rate_space.push_back((float) (0.0005 * pow(1.9, i)));
    g.shuffle(s->learning_rate_space);
    s->bias_learning_rate_space = {0.001f, 0.01f, 0.05f, 0.0001f};
    s->complexity_depth_space = {1, 0, 2};
    s->complexity_width_space = {2.0f, 1.0f, 3.0f};
    s->dropout_rate_space = {0.0f, 0.3f};
    s->l2_regularization_strength_space = {0.0f, 0.01f};
    s->batch_size_space = {(int) g.range(1, 8)};
    return s;
}

static bool in(const HyperparameterSpace &s, const Hyperparameters &c) {
    auto has = [](auto &v, auto x) { return find(v.begin(), v.end(), x) != v.end(); };
    return has(s.learning_rate_space, c.learning_rate) && has(s.bias_learning_rate_space, c.bias_learning_rate) && has(s.complexity_depth_space, c.complexity_depth) &&
           has(s.complexity_width_space, c.complexity_width) && has(s.dropout_rate_space, c.dropout_rate) && has(s.l2_regularization_strength_space, c.l2_regularization_strength) &&
           has(s.batch_size_space, c.batch_size) && has(s.use_normalization_layers_space, c.use_normalization_layers) && has(s.use_hidden_bias_space, c.use_hidden_bias) &&
           has(s.use_bias_space, c.use_bias) && has(s.use_normal_clipping_space, c.use_normal_clipping);
}

struct Evaluated {
    string config, folder, name, knowledge;
    float metric;
    filesystem::file_time_type when;
};

static float metricOf(const shared_ptr<NeuralNetworkForTraining> &nn, LossType loss, const string &path, float split, const vector<shared_ptr<RawDecoder>> &decoders) {
    nn->setSilentMode(true);
    auto d = make_shared<BinaryDataSet>(path, split);
    if (loss == categoricalCrossEntropy) return nn->compute_categorical_accuracy(d, decoders);
    if (loss == binaryCrossEntropy) return nn->compute_binary_accuracy(d);
    return nn->test(d);
}

static string predictions(const shared_ptr<NeuralNetworkForTraining> &nn, const string &path) {
    string s;
    BinaryDataSet d(path);
    while (auto r = d.nextRecord())
        for (auto &t: nn->predict(r->getGiven())) s += vf::show(vf::toX(t)) + ";";
    return s;
}

static long long bytesRead() {
    ifstream f("/proc/self/io");
    string k;
    long long v = 0;
    f >> k >> v;
    return v;
}

int main() {
    vf::rule("A case is a distinct search (its log of evaluated configurations with their scores), sample or evaluation.");

    vf::section("search", 60, 1500, [] {
        auto &g = rng();
        string dir = vf::freshDir("h"), path = dir + "/dataset.bin";
        auto p = problem(path);
        auto s = space();
        bool minimize = p.loss == mse;
        float split = g.chance(0.5) ? 1.f : 0.7f, test_split = split == 1.f ? 1.f : -0.3f;
        int factor = (int) g.range(2, 4);
        size_t n = (size_t) (g.chance(0.1) ? 1 : g.range(2, 9));
        int bits = g.pick(vector<int>{32, 32, 16, 8});
        float target = g.chance(0.75) ? (minimize ? -1.f : 2.f) : minimize ? (float) g.real(0.001, 0.2) : (float) g.real(0.3, 0.9);
        int epochs = (int) g.range(2, 5);
        if (g.chance(0.8)) s->learning_rate_space.insert(s->learning_rate_space.end(), {0.2f, 0.3f}); // so that candidates differ a lot
        filesystem::create_directories(dir + "/repo");
        auto evaluator = make_shared<ConfigurationEvaluator>(p.loss, g.chance(0.5) ? adam : sgd, path, split, path, test_split, dir + "/repo/", epochs, MINUTE_MS);
        Hyperband search(s, evaluator, (int) g.range(3, 30), factor);
        vf::probe("search");
        bool examine = g.chance(0.85);
        shared_ptr<NeuralNetworkForTraining> best;
        string said;
        {
            Silence silence;
            if (examine) {
                filesystem::create_directories(dir + "/kept");
                keep = filesystem::absolute(dir + "/kept").string();
            }
            best = search.run(n, target, bits);
            keep.clear();
            said = silence.sink.str();
        }
        string what = to_string(n) + " candidates, factor " + to_string(factor) + ", loss " + to_string(p.loss) + ", target " + to_string(target);
        if (!vf::check(best != nullptr, "search:nothing", what + ": " + said)) return;
        auto decoders = evaluator->getExpectedDecoders();
        float score = evaluator->getBestEvaluationMetric();
        auto chosen = evaluator->getBestConfiguration();
        vf::check(evaluator->getMinimizeMetric() == minimize, "search:direction", what);
        if (!vf::check(chosen != nullptr && in(*s, *chosen) && chosen->bits == bits, "search:space", chosen ? chosen->as_string() : "none")) return;
        vf::probe("score");
        float real = metricOf(best, p.loss, path, test_split, decoders);
        float tolerance = bits == 32 ? 1e-4f : 0.02f;
        if (!minimize) tolerance = 1e-6f;
        vf::check(fabs(real - score) <= tolerance, "search:score", what + ": the model that is returned scores " + to_string(real) + " instead of " + to_string(score));
        size_t left = 0;
        for (auto &e: filesystem::recursive_directory_iterator(dir + "/repo")) left += e.is_regular_file();
        vf::check(left == 0, "search:left-behind", to_string(left) + " files");
        if (!examine) {
            vf::count("clean");
            vf::nontrivial(what + to_string(score));
            return;
        }
        vf::probe("examine");
        vector<Evaluated> log;
        for (auto &e: filesystem::recursive_directory_iterator(dir + "/kept"))
            if (e.path().filename() == "model.config") {
                Evaluated v;
                v.config = vf::readFile(e.path().string());
                v.name = e.path().parent_path().filename().string();
                v.folder = e.path().parent_path().parent_path().string();
                v.when = e.last_write_time();
                auto nn = loadNeuralNetworkForTraining(v.name, v.folder);
                v.metric = metricOf(nn, p.loss, path, test_split, decoders);
                v.knowledge = predictions(nn, path);
                log.push_back(v);
            }
        sort(log.begin(), log.end(), [](const Evaluated &a, const Evaluated &b) { return a.when < b.when; });
        map<string, vector<Evaluated>> by; // the evaluations of each candidate, one per round
        for (auto &v: log) by[v.config].push_back(v);
        auto better = [&](float a, float b) { return minimize ? a < b : a > b; };
        string story;
        vector<vector<Evaluated>> rounds;
        for (auto &c: by)
            for (size_t k = 0; k < c.second.size(); k++) {
                if (rounds.size() <= k) rounds.resize(k + 1);
                rounds[k].push_back(c.second[k]);
            }
        for (auto &r: rounds) {
            story += "{";
            for (auto &v: r) story += to_string(v.metric) + " ";
            story += "}";
        }
        if (!vf::check(!rounds.empty() && rounds[0].size() == n, "search:candidates", what + ": " + to_string(rounds.empty() ? 0 : rounds[0].size()) + " different candidates in the first round")) return;
        size_t wanted = n;
        float top = minimize ? INFINITY : -INFINITY;
        for (size_t k = 0; k < rounds.size(); k++) {
            vf::check(rounds[k].size() == wanted, "search:round", what + ": round " + to_string(k + 1) + " has " + to_string(rounds[k].size()) + " candidates instead of " + to_string(wanted) + " " + story);
            for (auto &v: rounds[k]) if (better(v.metric, top)) top = v.metric;
            bool reached = better(top, target) && fabs(top - target) > tolerance;
            wanted /= (size_t) factor;
            bool over = wanted <= 1;
            if (k + 1 < rounds.size()) {
                vf::check(!over && !reached, "search:too-long", what + ": " + story);
                // those that were kept are the best ones
                for (auto &v: rounds[k]) {
                    bool kept = by[v.config].size() > k + 1;
                    if (kept) continue;
                    for (auto &o: rounds[k])
                        if (by[o.config].size() > k + 1)
                            vf::check(!(better(v.metric, o.metric) && fabs(v.metric - o.metric) > 2 * tolerance), "search:kept", what + ": a candidate that scored " + to_string(v.metric) + " was dropped and one that scored " + to_string(o.metric) + " was kept " + story);
                    vf::count("eliminations");
                }
            } else vf::check(over || better(top, target) || fabs(top - target) <= tolerance, "search:too-short", what + ": " + story);
        }
        vf::check(fabs(top - score) <= 2 * tolerance, "search:best", what + ": the best score is " + to_string(score) + ", but a candidate scored " + to_string(top) + " " + story);
        string answer = predictions(best, path);
        bool found = false, chosenFits = false;
        char lr[64];
        snprintf(lr, sizeof lr, "%.15f", chosen->learning_rate);
        for (auto &v: log)
            if (v.knowledge == answer) {
                found = true;
                vf::check(fabs(v.metric - score) <= 2 * tolerance, "search:model", what + ": the model that is returned scored " + to_string(v.metric) + " " + story);
                chosenFits |= v.config.find(lr) != string::npos;
            }
        vf::check(found, "search:other-model", what + ": the model that is returned is none of those evaluated");
        vf::check(!found || chosenFits, "search:configuration", what + ": the best configuration is not the one of the model: " + chosen->as_string());
        vf::count("evaluations", (long long) log.size());
        vf::count("rounds", (long long) rounds.size());
        if (rounds.size() > 1) vf::count("searches of several rounds");
        vf::count(minimize ? "minimized" : "maximized");
        vf::nontrivial(what + story);
    });

    vf::section("sample", 300, 10000, [] {
        auto &g = rng();
        int most = (int) g.range(0, 2000);
        auto all = make_shared<HyperparameterSpace>(most);
        vf::probe("sample");
        vf::check(!all->batch_size_space.empty(), "sample:batches", to_string(most));
        for (int b: all->batch_size_space) vf::check(b == 1 || b <= most, "sample:batch", to_string(b) + " of at most " + to_string(most));
        auto s = g.chance(0.5) ? all : space();
        vf::check(s->getNumConfigurations() == s->learning_rate_space.size() * s->bias_learning_rate_space.size() * s->complexity_depth_space.size() * s->complexity_width_space.size() *
                                               s->dropout_rate_space.size() * s->l2_regularization_strength_space.size() * s->batch_size_space.size() * s->use_normalization_layers_space.size() *
                                               s->use_hidden_bias_space.size() * s->use_bias_space.size() * s->use_normal_clipping_space.size(), "sample:size", "");
        HyperBandRandomSearch search(s);
        set<string> seen;
        string first;
        int bits = g.pick(vector<int>{8, 16, 32}), n = (int) g.range(1, 60);
        for (int i = 0; i < n; i++) {
            auto c = search.generateRandomConfiguration(bits);
            vf::check(in(*s, *c) && c->bits == bits, "sample:space", c->as_string());
            vf::check(seen.insert(c->as_string()).second, "sample:twice", c->as_string());
            first = c->as_string();
        }
        // a space with fewer candidates than were asked for
        auto one = make_shared<HyperparameterSpace>(1);
        one->learning_rate_space = {0.1f, 0.2f};
        one->bias_learning_rate_space = {0.1f};
        one->complexity_depth_space = {1};
        one->complexity_width_space = {1};
        one->dropout_rate_space = {0};
        one->l2_regularization_strength_space = {0};
        one->batch_size_space = {1};
        one->use_bias_space = one->use_hidden_bias_space = one->use_normal_clipping_space = one->use_normalization_layers_space = {true};
        if (vf::st().index % 10 == 0) {
            HyperBandRandomSearch few(one);
            set<float> rates;
            for (int i = 0; i < 4; i++) rates.insert(few.generateRandomConfiguration(32)->learning_rate);
            vf::check(rates == set<float>{0.1f, 0.2f}, "sample:few", to_string(rates.size()));
        }
        int resources = (int) g.range(1, 10000), factor = (int) g.range(2, 5), round = (int) g.range(0, 6), want = resources;
        int power = 1;
        for (int i = 0; i < round; i++) power *= factor;
        want = resources / power;
        vf::check(ResourceAllocator(resources, factor).allocateResources(round) == want, "sample:resources", to_string(resources));
        vf::count("samples", n);
        vf::nontrivial("s" + first);
    });

    vf::section("limits", 30, 500, [] { // an evaluation uses no more epochs or time than it may
        auto &g = rng();
        string dir = vf::freshDir("l"), path = dir + "/dataset.bin";
        auto p = problem(path, true);
        auto s = space();
        s->batch_size_space = {4};
        HyperBandRandomSearch sampler(s);
        auto config = sampler.generateRandomConfiguration(32);
        config->learning_rate = 1e-6f; // which hardly learns, but never gets worse either
        config->bias_learning_rate = 1e-6f;
        bool by_time = g.chance(0.3);
        int epochs = by_time ? 1000000 : (int) g.range(1, 3);
        int64_t time = by_time ? 1 : MINUTE_MS;
        ConfigurationEvaluator e(p.loss, sgd, path, 1.f, path, 1.f, dir + "/", epochs, time);
        Silence silence;
        vf::probe("limits");
        // what reading the dataset in a shuffled order costs: an epoch does so once, and reads it in order once
        auto pass = [&](bool shuffled) {
            BinaryDataSet d(path);
            auto shuffler = make_shared<Shuffler>(d.recordCount());
            long long least = LLONG_MAX;
            for (int i = 0; i < 5; i++) {
                if (shuffled) {
                    d.setShuffler(shuffler);
                    shuffler->shuffle();
                }
                d.restart();
                long long start = bytesRead();
                while (d.nextRecord());
                least = min(least, bytesRead() - start);
            }
            return least;
        };
        auto per_epoch = (double) (pass(true) + pass(false));
        long long before;
        before = bytesRead();
        e.evaluateConfiguration(config, 1000, -1.f);
        double used = (double) (bytesRead() - before) / per_epoch;
        // two epochs are always made, and the first loss, the final loss, and the score each take part of another one
        double allowed = (by_time ? 2 : max(epochs, 2)) * 2 + 8;
        vf::check(used <= allowed, "limits", "about " + to_string(used) + " epochs, with at most " + to_string(epochs) + " epochs and " + to_string(time) + " ms");
        vf::count("limited");
        vf::nontrivial("l" + to_string(epochs) + "," + to_string(time) + config->as_string());
    });

    vf::section("failing", 12, 200, [] { // candidates that can't be evaluated
        auto &g = rng();
        string dir = vf::freshDir("f"), path = dir + "/dataset.bin";
        auto p = problem(path);
        auto s = space();
        auto evaluator = make_shared<ConfigurationEvaluator>(p.loss, adam, path, 1.f, path, 1.f, dir + "/", 2, MINUTE_MS);
        size_t n = (size_t) g.range(2, 6);
        filesystem::remove(path);
        vf::probe("failing");
        auto r = vf::isolated([&] {
            Silence silence;
            Hyperband search(s, evaluator, 5, 3);
            return string(search.run(n, 2.f, 32) == nullptr ? "nothing" : "a model");
        }, 60);
        vf::check(r.exited && r.code == 0 && r.out == "nothing", "failing", r.out + " " + r.describe());
        vf::count("failed");
        vf::nontrivial("f" + to_string(n) + to_string(p.loss));
    });

    vf::require("evaluations", 50);
    vf::require("eliminations", 10);
    vf::require("searches of several rounds", 5);
    vf::require("minimized", 3);
    vf::require("maximized", 3);
    vf::require("clean", 1);
    vf::require("samples", 100);
    vf::require("limited", 5);
    vf::require("failed", 3);
    return vf::main();
}
