// C26: independent work done at the same time has no data races and the results it has when done one after another.
#include <bits/stdc++.h>
#include <execution>
#include <fcntl.h>
#include <unistd.h>
#include "common.hpp"

// The threads of a parallel algorithm that the code asks for. The library's own are not instrumented, so that what they
// do could not be told from races; these are, and start their work at once, or held up by a while that differs.
namespace par {
    static std::atomic<long> calls{0}, most{0}, running{0};
    static std::atomic<unsigned> jitter{0};

    inline void hold(unsigned salt) {
        unsigned j = jitter;
        if (!j) return;
        unsigned x = (j + salt * 2654435761u) >> 7;
        if (x % 3 == 0) std::this_thread::sleep_for(std::chrono::microseconds(x % 2000));
        else if (x % 3 == 1) std::this_thread::yield();
    }

    // whoever lets go of a lock may be held up before doing anything else
    static std::atomic<bool> hold_after_unlock{false};
    static std::atomic<unsigned> unlocked{0};

    // all of them, each in a thread of its own, and none before all are there
    inline void run(std::vector<std::function<void()>> work) {
        std::vector<std::thread> threads;
        std::mutex m;
        std::condition_variable c;
        size_t there = 0;
        std::vector<std::exception_ptr> failed(work.size());
        for (size_t i = 0; i < work.size(); i++)
            threads.emplace_back([&, i] {
                {
                    std::unique_lock<std::mutex> lock(m);
                    there++;
                    c.notify_all();
                    c.wait(lock, [&] { return there == work.size(); });
                }
                hold((unsigned) i);
                long now = ++running;
                for (long seen = most; now > seen && !most.compare_exchange_weak(seen, now);) {}
                try {
                    work[i]();
                } catch (...) { failed[i] = std::current_exception(); }
                --running;
            });
        for (auto &t: threads) t.join();
        for (auto &f: failed) if (f) std::rethrow_exception(f);
    }
}

namespace std {
    template<class I, class F>
    void for_each(const execution::parallel_policy &, I a, I b, F f) {
        par::calls++;
        vector<function<void()>> work;
        for (; a != b; ++a) {
            work.push_back([a, &f] { f(*a); });
            if (work.size() == 12) {
                par::run(work);
                work.clear();
            }
        }
        if (!work.empty()) par::run(work);
    }
}

extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t *);
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    int r = __real_pthread_mutex_unlock(m);
    if (par::hold_after_unlock) {
        unsigned x = (++par::unlocked + par::jitter) * 2654435761u >> 9;
        if (x % 4 == 0) std::this_thread::sleep_for(std::chrono::microseconds(x % 8 == 0 ? 200000 : x % 5000));
    }
    return r;
}

#include "lang.hpp"
#include "ml/hyperband/hyperband.hpp"
#include "types/tensor_impls/identity_tensor.hpp"
#include "util/tensor_stats.hpp"
#include "nets.hpp"
#include "tensor_gen.hpp"

using namespace lang;
using vf::X;
typedef shared_ptr<BaseTensor> Tensor;

// what the code prints goes nowhere, without a buffer that is shared
struct Silence {
    int old;

    Silence() {
        cout.flush();
        old = dup(1);
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        close(n);
    }

    ~Silence() {
        cout.flush();
        dup2(old, 1);
        close(old);
    }
};

static string text(double x) {
    char b[64];
    snprintf(b, sizeof b, "%.9g,", x);
    return b;
}

static string text(const Tensor &t) {
    string s = to_string(t->rowCount()) + "x" + to_string(t->columnCount()) + "x" + to_string(t->channelCount()) + ":";
    for (size_t k = 0; k < t->channelCount(); k++) for (size_t r = 0; r < t->rowCount(); r++) for (size_t c = 0; c < t->columnCount(); c++) s += text(t->getValue(r, c, k));
    return s;
}

// ---------------------------------------------------------------- tensors

// the same tensor each time it is made from the same numbers
static Tensor grow(vf::Rng &g, size_t r, size_t c, size_t k, int depth) {
    auto raw = [&]() -> Tensor {
        auto v = vf::genVals(g, r, c, k, g.chance(0.5) ? 1 : 4);
        auto f = vf::full(v);
        switch (g.range(0, 4)) {
            case 0: return make_shared<HalfTensor>(f);
            case 1: return make_shared<QuarterTensor>(f, 8);
            case 2: return make_shared<TensorFromFunction>([](size_t a, size_t b, size_t d) { return (float) (a * 3 + b * 2 + d) / 7.f; }, r, c, k);
            default: return f;
        }
    };
    if (depth == 0) return raw();
    auto in = [&] { return grow(g, r, c, k, depth - 1); };
    switch (g.range(0, 27)) {
        case 0: return make_shared<AbsoluteTensorView>(in());
        case 1: return make_shared<AddTensorView>(in(), in());
        case 2: return make_shared<ClipTensorView>(in(), -0.5f, 0.5f);
        case 3: return make_shared<SubtractTensorView>(in(), in());
        case 4: return make_shared<ElementWiseMultiplyTensorView>(in(), in());
        case 5: return make_shared<ElementWiseDivideTensorView>(in(), in());
        case 6: return make_shared<TransposeTensorView>(grow(g, c, r, k, depth - 1));
        case 7: return make_shared<MatrixMultiplyTensorView>(grow(g, r, 3, k, depth - 1), grow(g, 3, c, k, depth - 1));
        case 8: return make_shared<StandardizeTensorView>(in());
        case 9: return make_shared<NormalizeTensorView>(in());
        case 10: return make_shared<ExponentialTensorView>(in());
        case 11: return make_shared<Rotate180TensorView>(in());
        case 12: return make_shared<ScalarMultiplyTensorView>(in(), 1.5f);
        case 13: return make_shared<ScalarAddTensorView>(in(), 0.5f);
        case 14: return make_shared<ValueTransformTensorView>(in(), [](float x) { return x * x - 1; });
        case 15: return make_shared<ReshapeTensorView>(grow(g, c, r, k, depth - 1), r, c);
        case 16: return k > 1 ? in() : Tensor(make_shared<Full2DConvolveTensorView>(grow(g, r, c, 1, depth - 1), vf::genTensor(g, 1, 1, 1, 1)));
        case 17: return k > 1 ? in() : Tensor(make_shared<Valid2DCrossCorrelationTensorView>(grow(g, r + 2, c + 1, 1, depth - 1), vf::genTensor(g, 3, 2, 1, 1)));
        case 18: return make_shared<RoundTensorView>(in());
        case 19: return make_shared<PowerTensorView>(in(), 2.f);
        case 20: return make_shared<SqrtTensorView>(make_shared<AbsoluteTensorView>(in()));
        case 21: return make_shared<SumToChannelTensorView>(in(), 0, k);
        case 22: return r > 1 && c > 1 ? Tensor(make_shared<ZeroPadTensorView>(grow(g, r - 1, c - 1, k, depth - 1), 1, 0, 0, 1)) : in();
        case 23: return make_shared<DenormalizeTensorView>(in(), -2.f, 3.f);
        case 24: return make_shared<LessThanScalarTensorView>(in(), 0.3f);
        case 25: return make_shared<ScalarDivideTensorView>(in(), 3.f);
        case 26: return k == 1 && r == c ? Tensor(make_shared<InverseTensorView>(make_shared<AddTensorView>(in(), make_shared<IdentityTensor>(r, c, k)))) : in();
        default: return make_shared<ElementWiseInverseTensorView>(make_shared<ScalarAddTensorView>(make_shared<AbsoluteTensorView>(in()), 1.f));
    }
}

static string ask(const Tensor &t, int what, const string &file) {
    switch (what) {
        case 0: return text(t);
        case 1: return text(t->sum()) + text(t->max()) + text(t->min()) + text(t->max_abs());
        case 2: return text(t->arithmeticMean()) + text(t->variance()) + text(t->standardDeviation());
        case 3: {
            auto r = t->range();
            return text(r.first) + text(r.second) + text(t->euclidean_norm());
        }
        case 4: {
            string s;
            for (size_t r = 0; r < t->rowCount(); r++) s += to_string(t->maxIndexByRow(0, r)) + " " + to_string(t->minIndex(0, r)) + " ";
            for (auto &i: t->topIndices(2, 0, 0)) s += to_string(i.getIndex()) + " ";
            return s;
        }
        case 5: {
            t->save(file);
            return vf::readFile(file) + text(Tensor(make_shared<FullTensor>(file)));
        }
        case 6: {
            TensorStats s(*t);
            ostringstream o;
            o.precision(9);
            o << s.getRecommendedBias() << " " << s.getRecommendedOffset() << " " << s.targetBiasFit();
            return o.str();
        }
        case 7: return text(Tensor(make_shared<FullTensor>(t))) + text(Tensor(make_shared<HalfTensor>(t)));
        default: {
            string s;
            for (size_t r = 0; r < t->rowCount(); r++) for (auto x: t->getRowValues(r)) s += text(x);
            ostringstream o;
            t->print(o);
            return s + o.str() + to_string(t->hasNaNOrInf());
        }
    }
}

// ---------------------------------------------------------------- jobs

typedef std::function<string(const string &dir)> Job; // independent of the others, with a folder of its own

static vf::Record small(const vf::NetSpec &s) { return vf::randRecord(s); }

static Job training() {
    auto &g = rng();
    vf::GenOptions o;
    o.low_bits = true;
    auto s = make_shared<vf::NetSpec>(vf::genNet(o));
    s->opt = g.pick(vector<OptimizerType>{adam, sgd, sgdm, adam_with_decaying_momentum, sgdm_with_decaying_momentum});
    string d = vf::freshDir("p");
    auto p = vf::randParams(*s, vf::readParams(*s, vf::build(*s, "m", d), d));
    auto one = small(*s), other = small(*s);
    size_t copies = (size_t) g.range(1, 4), epochs = (size_t) g.range(1, 6);
    int batch = (int) g.range(1, (long long) copies);
    return [=](const string &dir) {
        auto nn = vf::build(*s, "m", dir);
        vf::writeParams(p, nn, dir);
        nn->setExitStrategy(vf::epochs(epochs));
        auto result = nn->train(vf::dataset(vector<vf::Record>(copies, one)), batch);
        string r = s->str() + ":" + text((double) result->best_train_loss) + to_string(result->epochs) + " ";
        vector<Tensor> in;
        for (auto &x: other.given) in.push_back(vf::toT(x));
        for (auto &t: nn->predict(in)) r += text(t);
        nn->saveWithOverwrite();
        auto again = loadNeuralNetworkForTraining("m", dir);
        for (auto &t: again->predict(in)) r += text(t);
        r += text(again->test(vf::dataset({other})));
        return r;
    };
}

// all of these load the same model
static vector<Job> loading(size_t n) {
    auto &g = rng();
    vf::GenOptions o;
    auto s = vf::genNet(o);
    auto d = std::filesystem::absolute(vf::freshDir("shared")).string();
    vf::build(s, "m", d)->saveWithOverwrite();
    vector<Job> jobs;
    for (size_t i = 0; i < n; i++) {
        auto q = small(s);
        jobs.push_back([=](const string &) {
            vector<Tensor> in;
            for (auto &x: q.given) in.push_back(vf::toT(x));
            string r;
            auto nn = loadNeuralNetworkForTraining("m", d);
            nn->setSilentMode(true);
            for (int k = 0; k < 2; k++) for (auto &t: nn->predict(in)) r += text(t);
            r += text(nn->test(vf::dataset({q})));
            return r;
        });
    }
    return jobs;
}

static bool make(const string &name, const ds::Source &s, const string &file) {
    vector<std::shared_ptr<ColumnGroup>> groups;
    size_t id = 1;
    for (auto &c: s.cols) groups.push_back(std::make_shared<ColumnGroup>(id++, c.start, c.width(), c.use, c.type, c.name, c.rows, c.columns, c.channels));
    return CreateDatasetStatement(name, "file://" + file, s.header, groups, false).execute(std::make_shared<ExecutionContext>())->isSuccessful();
}

static string everything(const string &path, float split = 1) {
    BinaryDataSet d(path, split);
    string r = to_string(d.recordCount()) + ";";
    for (int i = 0; i < 2; i++, d.restart())
        while (auto x = d.nextRecord()) {
            for (auto &t: x->getGiven()) r += text(t);
            for (auto &t: x->getExpected()) r += text(t);
        }
    return r;
}

static Job creating(const string &name) {
    auto s = ds::make(30);
    while (s.records.empty()) s = ds::make(30);
    return [=](const string &dir) {
        // in the repository they share
        string file = dir + "/s.csv";
        vf::writeFile(file, s.text);
        string n = name + "_" + std::filesystem::path(dir).parent_path().filename().string();
        bool ok = make(n, s, std::filesystem::absolute(file).string());
        string set = "../happyml_repo/datasets/" + n + "/dataset.bin";
        return to_string(ok) + (vf::exists(set) ? vf::readFile(set) + everything(set) : "nothing");
    };
}

static vector<Job> reading(size_t n) {
    auto &g = rng();
    auto s = ds::make(40);
    while (s.records.size() < 3) s = ds::make(40);
    string dir = vf::freshDir("r"), name = "read" + to_string(vf::st().index);
    vf::writeFile(dir + "/s.csv", s.text);
    string file = std::filesystem::absolute(dir + "/s.csv").string();
    vector<Job> jobs;
    if (!make(name, s, file)) throw runtime_error("no dataset");
    string set = std::filesystem::absolute("../happyml_repo/datasets/" + name + "/dataset.bin").string();
    for (size_t i = 0; i < n; i++) {
        float split = g.pick(vector<float>{1, 0.7f, -0.3f, 0.5f});
        bool plain = g.chance(0.3), header = s.header;
        jobs.push_back([=](const string &) {
            if (!plain) return everything(set, split);
            string r;
            DelimitedTextFileReader d(file, ',', header);
            while (d.hasNext()) {
                for (auto &c: d.nextRecord()) r += c + "|";
                r += "\n";
            }
            return r;
        });
    }
    return jobs;
}

static Job sorting() {
    auto &g = rng();
    string content = "a,b\n";
    for (long long i = g.range(1, 60); i > 0; i--) content += to_string(g.range(0, 20)) + "," + to_string(g.range(0, 9)) + "\n";
    bool unique = g.chance(0.5);
    return [=](const string &dir) {
        string from = dir + "/from.csv", to = dir + "/to.csv";
        vf::writeFile(from, content);
        FileSorter::sort(from, to, true, 16, unique);
        string r = vf::readFile(to) + "/";
        for (auto &e: std::filesystem::directory_iterator(dir)) if (e.path().filename() != "from.csv" && e.path().filename() != "to.csv") r += e.path().filename().string();
        return r;
    };
}

static Job pairs() {
    auto &g = rng();
    vector<string> data;
    for (long long i = g.range(1, 40); i > 0; i--) {
        string w;
        for (long long k = g.range(1, 8); k > 0; k--) w += (char) ('a' + g.range(0, 2));
        data.push_back(w);
    }
    return [=](const string &dir) {
        BytePairEncoderModel m("m", false);
        m.train(data, -1, -1, 2, 20);
        m.save(dir, "k");
        BytePairEncoderModel n("m", false);
        n.load(dir, "k");
        string r;
        for (auto &w: data) {
            auto a = m.encode(w), b = n.encode(w);
            r += to_string(a.size()) + (a == b ? "=" : "#") + n.decode(b) + " ";
        }
        return r;
    };
}

static Job talking() {
    auto s = source(6);
    return [=](const string &dir) {
        // a session of its own
        string file = dir + "/s.csv", n = "said" + std::filesystem::path(dir).filename().string() + "_" + std::filesystem::path(dir).parent_path().filename().string();
        vf::writeFile(file, s.text);
        InterpreterSession session(initializeHappymlParser());
        bool over = session.interpretCommands(ds::statement(s, n, "file://" + std::filesystem::absolute(file).string()) + "\nlet a = 3\nlet b = a\n", "script");
        string set = "../happyml_repo/datasets/" + n + "/dataset.bin";
        return to_string(over) + (vf::exists(set) ? everything(set) : "nothing");
    };
}

// ---------------------------------------------------------------- search

static size_t dataset(const string &path, size_t rows, size_t inputs, bool labels) {
    auto &g = rng();
    auto column = [](char purpose, size_t columns, const string &name) {
        auto m = make_shared<BinaryColumnMetadata>();
        *m = BinaryColumnMetadata{};
        m->purpose = purpose;
        m->rows = 1;
        m->columns = columns;
        m->channels = 1;
        m->source_column_count = columns;
        m->name = name;
        m->standard_deviation = 1;
        m->max_value = 1;
        return m;
    };
    auto given = column('N', inputs, "n"), expected = column(labels ? 'L' : 'N', labels ? 2 : 1, "e");
    if (labels) expected->ordered_labels = {"no", "yes"};
    BinaryDatasetWriter w(path, {given}, {expected}, 0);
    for (size_t r = 0; r < rows; r++) {
        vector<float> v(inputs);
        float sum = 0;
        for (auto &x: v) x = (float) g.real(0, 1), sum += x / (float) inputs;
        w.writeRow({tensor({{v}})}, {labels ? tensor({{{sum < 0.5f ? 1.f : 0.f, sum < 0.5f ? 0.f : 1.f}}}) : tensor({{{sum}}})});
    }
    w.close();
    return rows;
}

static shared_ptr<Hyperparameters> candidate() {
    auto &g = rng();
    auto c = make_shared<Hyperparameters>();
    c->learning_rate = (float) g.real(0.0005, 0.3);
    c->bias_learning_rate = (float) g.real(0.0005, 0.1);
    c->complexity_depth = (int) g.range(0, 1);
    c->complexity_width = g.pick(vector<float>{1.f, 2.f});
    c->dropout_rate = 0;
    c->l2_regularization_strength = g.chance(0.5) ? 0.f : 0.01f;
    c->batch_size = (int) g.range(1, 4);
    c->use_normalization_layers = false;
    c->use_bias = c->use_hidden_bias = g.chance(0.5);
    c->use_normal_clipping = g.chance(0.5);
    c->bits = 32;
    c->evaluation_metric = -12345;
    c->minimize_metric = false;
    return c;
}

static float scored(const shared_ptr<NeuralNetworkForTraining> &nn, LossType loss, const string &path, float split, const vector<shared_ptr<RawDecoder>> &decoders) {
    nn->setSilentMode(true);
    auto d = make_shared<BinaryDataSet>(path, split);
    if (loss == categoricalCrossEntropy) return nn->compute_categorical_accuracy(d, decoders);
    return nn->test(d);
}

int main() {
    vf::rule("A case is a distinct set of work with the order in which its parts ended when done at the same time.");
    vf::require("threads", 4000);
    vf::require("parts in another order than started", 100);
    vf::require("searches", 60);

    auto schedule = [](long long n) {
        auto &g = rng();
        par::jitter = g.chance(0.3) ? 0 : (unsigned) g.range(1, 1 << 30);
        vf::count("threads", n);
    };

    vf::section("tensors", 900, 4000, [&] {
        auto &g = rng();
        size_t r = (size_t) g.range(1, 6), c = (size_t) g.range(1, 6), k = (size_t) g.range(1, 2);
        if (g.chance(0.05)) r = 40, c = 60; // enough for statistics to be taken by several threads
        int depth = (int) g.range(0, r > 6 ? 1 : 3);
        auto numbers = g;
        vf::Rng a = numbers, b = numbers;
        auto alone = grow(a, r, c, k, depth), shared = grow(b, r, c, k, depth);
        g = a;
        string dir = vf::freshDir("t");
        size_t n = (size_t) g.range(2, 8);
        vector<int> what(n);
        vector<string> wanted(n), got(n);
        for (size_t i = 0; i < n; i++) {
            what[i] = (int) g.range(0, 8);
            wanted[i] = ask(alone, what[i], dir + "/a" + to_string(i));
        }
        schedule((long long) n);
        vector<function<void()>> work;
        string order;
        mutex m;
        for (size_t i = 0; i < n; i++)
            work.push_back([&, i] {
                got[i] = ask(shared, what[i], dir + "/b" + to_string(i));
                lock_guard<mutex> guard(m);
                order += to_string(i);
            });
        vf::probe("tensors");
        par::run(work);
        for (size_t i = 0; i < n; i++) vf::check(got[i] == wanted[i], "tensors:different", "question " + to_string(what[i]) + " about a " + to_string(r) + "x" + to_string(c) + "x" + to_string(k) + " tensor: " + got[i] + " instead of " + wanted[i]);
        if (!is_sorted(order.begin(), order.end())) vf::count("parts in another order than started");
        vf::nontrivial(order + wanted[0]);
    });

    // the statistics of a tensor large enough that several threads take them
    vf::section("statistics", 2, 6, [&] {
        auto &g = rng();
        bool by_row = vf::st().index % 2 == 1;
        size_t few = (size_t) g.range(30, 50), part = (size_t) g.range(50, 200), copies = 100000000 / few / part + 1;
        double a = g.real(0.01, 3), b = g.real(-100, 20);
        auto f = [=](size_t r, size_t c, size_t) {
            if (by_row) swap(r, c);
            return (float) (a * (double) ((r * 7 + c % part * 3) % 101) + b);
        };
        auto make = [&](size_t n) { return by_row ? make_shared<TensorFromFunction>(f, n, few, 1) : make_shared<TensorFromFunction>(f, few, n, 1); };
        auto big = make(part * copies), small = make(part);
        vf::probe("statistics");
        TensorStats x(*big), y(*small);
        vf::check(x.getRecommendedBias() == y.getRecommendedBias() && x.getRecommendedOffset() == y.getRecommendedOffset() && x.targetBiasFit() == y.targetBiasFit(), "statistics:different",
                  text(x.getRecommendedBias()) + text(x.getRecommendedOffset()) + " of many copies of what has " + text(y.getRecommendedBias()) + text(y.getRecommendedOffset()));
        vf::count("threads", (long long) few);
        vf::nontrivial(text(a) + text(b));
    });

    vf::section("jobs", 320, 2500, [&] {
        auto &g = rng();
        string dir = std::filesystem::absolute(vf::freshDir("j")).string(), cwd = dir + "/cwd";
        std::filesystem::create_directories(cwd);
        auto old = std::filesystem::current_path();
        std::filesystem::current_path(cwd);
        std::filesystem::create_directories("../happyml_repo/datasets");
        Silence silence;
        vector<Job> jobs;
        string what;
        size_t n = (size_t) g.range(2, 7);
        if (g.chance(0.2)) jobs = loading(n), what = "load";
        else if (g.chance(0.2)) jobs = reading(n), what = "read";
        else {
            bool all = g.chance(0.4); // of the same kind
            int kind = (int) g.range(0, 5);
            while (jobs.size() < n) {
                if (!all) kind = (int) g.range(0, 5);
                what += to_string(kind);
                jobs.push_back(kind == 0 ? creating("set" + to_string(jobs.size())) : kind == 1 ? sorting() : kind == 2 ? pairs() : kind == 3 ? talking() : training());
            }
        }
        auto folder = [&](const string &w, size_t i) {
            string d = dir + "/" + w + "/" + to_string(i);
            std::filesystem::create_directories(d);
            return d;
        };
        vector<string> one(n), many(n);
        vector<function<void()>> work;
        string order;
        mutex m;
        for (size_t i = 0; i < n; i++) { vf::probe("job " + what); one[i] = jobs[i](folder("alone", i)); }
        for (size_t i = 0; i < n; i++) {
            string d = folder("together", i);
            work.push_back([&, i, d] {
                many[i] = jobs[i](d);
                lock_guard<mutex> guard(m);
                order += to_string(i);
            });
        }
        schedule((long long) n);
        vf::probe("jobs");
        par::run(work);
        for (size_t i = 0; i < n; i++) vf::check(one[i] == many[i], "jobs:different", what + ": part " + to_string(i) + " gave " + many[i].substr(0, 400) + " instead of " + one[i].substr(0, 400));
        vf::count("jobs", (long long) n);
        if (!is_sorted(order.begin(), order.end())) vf::count("parts in another order than started");
        vf::nontrivial(what + order + one[0]);
        std::filesystem::current_path(old);
    });

    vf::section("candidates", 100, 500, [&] {
        auto &g = rng();
        string dir = vf::freshDir("c"), path = dir + "/dataset.bin";
        bool labels = g.chance(0.5);
        LossType loss = labels ? categoricalCrossEntropy : mse;
        dataset(path, (size_t) g.range(8, 16), (size_t) g.range(1, 2), labels);
        std::filesystem::create_directories(dir + "/repo");
        float split = g.chance(0.5) ? 1.f : 0.7f, test = split == 1.f ? 1.f : -0.3f;
        ConfigurationEvaluator e(loss, g.chance(0.5) ? adam : sgd, path, split, path, test, dir + "/repo/", 2, MINUTE_MS);
        size_t n = (size_t) g.range(4, 12);
        vector<shared_ptr<Hyperparameters>> all;
        for (size_t i = 0; i < n; i++) all.push_back(candidate());
        if (g.chance(0.5)) for (auto &c: all) c->complexity_depth = 0, c->batch_size = 4; // all end at about the same time
        vector<char> good(n);
        float target = labels ? 0.6f : 0.1f;
        vector<function<void()>> work;
        string order;
        mutex m;
        for (size_t i = 0; i < n; i++)
            work.push_back([&, i] {
                good[i] = e.evaluateConfiguration(all[i], 2, target);
                lock_guard<mutex> guard(m);
                order += (char) ('a' + i);
            });
        schedule((long long) n);
        vf::probe("candidates");
        {
            Silence silence;
            par::hold_after_unlock = g.chance(0.7);
            par::run(work);
            par::hold_after_unlock = false;
        }
        vf::count("searches");
        auto better = [&](float a, float b) { return labels ? a > b : a < b; };
        shared_ptr<Hyperparameters> best = all[0];
        for (auto &c: all) {
            vf::check(c->evaluation_metric != -12345, "candidates:not scored", c->as_string());
            vf::check(c->minimize_metric == !labels, "candidates:direction", c->as_string());
            if (better(c->evaluation_metric, best->evaluation_metric)) best = c;
        }
        vf::check(e.getBestEvaluationMetric() == best->evaluation_metric, "candidates:best score", to_string(e.getBestEvaluationMetric()) + " instead of " + to_string(best->evaluation_metric) + " " + order);
        auto chosen = e.getBestConfiguration();
        vf::check(chosen && chosen->evaluation_metric == best->evaluation_metric, "candidates:best", order);
        auto nn = e.getBestModel();
        float real = scored(nn, loss, path, test, e.getExpectedDecoders());
        vf::check(fabs(real - best->evaluation_metric) <= 1e-4, "candidates:model", "the best model scores " + to_string(real) + " instead of " + to_string(best->evaluation_metric) + " " + order);
        if (better(best->evaluation_metric, target)) vf::check(find(good.begin(), good.end(), 1) != good.end(), "candidates:not told", order);
        else vf::check(find(good.begin(), good.end(), 1) == good.end(), "candidates:told", order);
        e.remove_temp_folder();
        if (!is_sorted(order.begin(), order.end())) vf::count("parts in another order than started");
        vf::nontrivial(order + to_string(best->evaluation_metric));
    });

    vf::section("search", 40, 200, [&] {
        auto &g = rng();
        // one, or two at the same time
        size_t n = g.chance(0.3) ? 2 : 1;
        vector<function<void()>> work;
        vector<string> problems(n);
        vector<float> scores(n);
        schedule((long long) n);
        long before = par::calls;
        for (size_t i = 0; i < n; i++) {
            string dir = vf::freshDir("s" + to_string(i)), path = dir + "/dataset.bin";
            bool labels = g.chance(0.5);
            LossType loss = labels ? categoricalCrossEntropy : mse;
            dataset(path, (size_t) g.range(8, 14), (size_t) g.range(1, 2), labels);
            std::filesystem::create_directories(dir + "/repo");
            auto s = make_shared<HyperparameterSpace>(4);
            s->complexity_depth_space = {1, 0};
            s->complexity_width_space = {1.0f, 2.0f};
            s->dropout_rate_space = {0.0f, 0.3f};
            size_t candidates = (size_t) g.range(2, 8);
            int factor = (int) g.range(2, 3);
            OptimizerType o = g.chance(0.5) ? adam : sgd;
            int bits = g.pick(vector<int>{32, 32, 16, 8});
            work.push_back([=, &problems, &scores]() mutable {
                auto e = make_shared<ConfigurationEvaluator>(loss, o, path, 1.f, path, 1.f, dir + "/repo/", 2, MINUTE_MS);
                Hyperband search(s, e, 4, factor);
                auto best = search.run(candidates, labels ? 2.f : -1.f, bits);
                if (!best) problems[i] = "nothing was found";
                else {
                    float real = scored(best, loss, path, 1.f, e->getExpectedDecoders());
                    scores[i] = e->getBestEvaluationMetric();
                    if (fabs(real - scores[i]) > (bits == 32 ? 1e-4 : labels ? 1e-4 : 0.02)) problems[i] = "the best model scores " + to_string(real) + " instead of " + to_string(scores[i]);
                }
            });
        }
        vf::probe("search");
        {
            Silence silence;
            par::run(work);
        }
        for (auto &p: problems) vf::check(p.empty(), "search:result", p);
        vf::check(par::calls > before, "search:not parallel", "");
        vf::count("searches", (long long) n);
        vf::nontrivial(text(scores[0]) + to_string(n));
    });
    return vf::main();
}
