// C19: what a training run consumes, reports, and returns, judged from a log of everything it asked for.
#include <bits/stdc++.h>
#include <thread>
#include "lang/interpreter.hpp"
#include "nets.hpp"

using namespace happyml;
using vf::rng;
using vf::T;
using vf::X;
typedef chrono::steady_clock Clock;

static string num(double d) {
    ostringstream o;
    o.precision(9);
    o << d;
    return o.str();
}

static T scalarT(double v) { return vf::full({{{(float) v}}}); }

// what happened, in order
struct Event {
    enum Kind { record, testRecord, restart, loss, derivative, epochEnd } kind;
    int id = -1;        // record
    double weight = 0;  // the prediction for the input 1: the weight at that moment
    double value = 0;   // the loss or derivative given, or the loss reported
    long long elapsed = 0;
    size_t epoch = 0;
    Clock::time_point at;
};

struct Log {
    vector<Event> e;

    void add(Event x) {
        x.at = Clock::now();
        e.push_back(x);
    }
};

struct SpySet : public TrainingDataSet {
    Log &log;
    size_t n, at = 0;
    bool test;
    int sleep_ms = 0;
    size_t outputs;

    SpySet(Log &l, size_t n, bool test, size_t outputs = 1) : log(l), n(n), test(test), outputs(outputs) {}

    size_t recordCount() override { return n; }

    void restart() override {
        at = 0;
        Event x;
        x.kind = Event::restart;
        x.id = test;
        log.add(x);
    }

    shared_ptr<TrainingPair> nextRecord() override {
        if (at >= n) return nullptr;
        if (sleep_ms && at == 0) this_thread::sleep_for(chrono::milliseconds(sleep_ms));
        size_t i = shuffler_ ? shuffler_->getShuffledIndex(at) : at;
        at++;
        Event x;
        x.kind = test ? Event::testRecord : Event::record;
        x.id = (int) i;
        log.add(x);
        vector<T> given{scalarT(1)}, expected;
        for (size_t o = 0; o < outputs; o++) expected.push_back(scalarT((double) i));
        return make_shared<TrainingPair>(given, expected);
    }

    vector<vector<size_t>> getGivenShapes() override { return {{1, 1, 1}}; }

    vector<vector<size_t>> getExpectedShapes() override { return vector<vector<size_t>>(outputs, {1, 1, 1}); }
};

// losses and derivatives come from a script; the arguments are logged
struct SpyLoss : public LossFunction {
    Log &log;
    function<double(int)> loss, slope;
    int current = -1;

    explicit SpyLoss(Log &l) : log(l) {}

    T compute_error(T &truth, T &prediction) override {
        current = (int) lround(truth->getValue(0));
        Event x;
        x.kind = Event::loss;
        x.id = current;
        x.weight = prediction->getValue(0);
        x.value = loss(current);
        log.add(x);
        return scalarT(x.value);
    }

    float compute_loss(T &error) override { return error->getValue(0); }

    T compute_loss_derivative(T &, T &truth, T &prediction) override {
        Event x;
        x.kind = Event::derivative;
        x.id = (int) lround(truth->getValue(0));
        x.weight = prediction->getValue(0);
        x.value = (double) (float) slope(x.id);
        log.add(x);
        return scalarT(x.value);
    }
};

struct SpyExit : public ExitStrategy {
    Log &log;
    function<bool(size_t, float, int64_t)> done;

    explicit SpyExit(Log &l) : log(l) {}

    bool isDone(size_t epoch, float loss, int64_t ms) override {
        Event x;
        x.kind = Event::epochEnd;
        x.epoch = epoch;
        x.value = loss;
        x.elapsed = ms;
        log.add(x);
        return done(epoch, loss, ms);
    }

    string whyDone(size_t, float, int64_t) override { return "told to"; }
};

// one input, `outputs` linear outputs straight from it, every weight visible as the prediction for the input 1
static shared_ptr<NeuralNetworkForTraining> lineNet(const string &dir, float lr, size_t outputs = 1) {
    auto dsl = neuralNetworkBuilder(sgd, "m", dir)->setLearningRate(lr)->setBiasLearningRate(lr);
    HappymlDSL::NNVertex *keep = nullptr;
    (void) keep;
    shared_ptr<NeuralNetworkForTraining> nn;
    if (outputs == 1) {
        auto v = dsl->addInputOutputLayer({1, 1, 1}, {1, 1, 1}, LayerType::full, linear);
        v->setUseL2Regularization(false);
        nn = dsl->build();
    } else {
        auto in = dsl->addInputLayer({1, 1, 1}, {1, 1, 1}, LayerType::flatten, linear);
        for (size_t o = 0; o < outputs; o++) in->addOutput(1, linear)->setUseL2Regularization(false);
        nn = dsl->build();
    }
    return nn;
}

static double weightOf(const shared_ptr<NeuralNetworkForTraining> &nn) { return nn->predictOne(scalarT(1))->getValue(0); }

static vector<string> leftovers(const string &dir) {
    vector<string> r;
    if (filesystem::exists(dir)) for (auto &f: filesystem::recursive_directory_iterator(dir)) if (!f.is_directory()) r.push_back(f.path().generic_string());
    return r;
}

struct Quiet { // what a non-silent run prints is not under test here
    int keep;

    Quiet() {
        fflush(stdout);
        cout.flush();
        keep = dup(1);
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        close(n);
    }

    ~Quiet() {
        fflush(stdout);
        cout.flush();
        dup2(keep, 1);
        close(keep);
    }
};

int main() {
    vf::rule("A case is a distinct training run (loss script, sizes, policy) whose whole event log was checked.");
    vf::section("accounts", 500, 20000, [] {
        auto &g = rng();
        string dir = vf::freshDir("repo");
        Log log;
        size_t n = g.chance(0.2) ? g.range(1, 3) : vf::side(1, 17, 300), outputs = g.chance(0.25) ? g.range(2, 3) : 1;
        int bs = g.chance(0.2) ? (int) n : (int) g.range(1, (long long) n);
        bool useTest = g.chance(0.4), keepBest = g.chance(0.5), silent = g.chance(0.7);
        size_t epochs = vf::side(1, 7, 45);
        float lr = (float) g.real(0.01, 0.5);
        auto data = make_shared<SpySet>(log, n, false, outputs);
        auto tests = make_shared<SpySet>(log, useTest ? vf::side(1, 6, 60) : 0, true, outputs);
        auto loss = make_shared<SpyLoss>(log);
        auto exits = make_shared<SpyExit>(log);
        size_t epoch = 0;
        bool testing = false;
        vector<double> level;
        int family = (int) g.range(0, 4);
        for (size_t e = 0; e < epochs; e++)
            level.push_back(family == 0 ? 10.0 / (double) (e + 1) : family == 1 ? 1.0 + (double) e : family == 2 ? 2.0 : family == 3 ? fabs((double) e - 2) + 0.5 : g.real(0.1, 5));
        vector<double> slopes(n), own(n), testOwn(16);
        for (auto &x: slopes) x = g.real(-1, 1);
        for (auto &x: own) x = g.real(0.1, 3);
        for (auto &x: testOwn) x = g.real(0.1, 3);
        (void) testing;
        size_t losses = 0;
        loss->loss = [&](int id) {
            // the epoch is known from how many records were looked at
            (void) id;
            size_t per = (n + tests->n) * outputs;
            size_t in = losses++ % per;
            epoch = (losses - 1) / per;
            double base = epoch < level.size() ? level[epoch] : 1;
            return base * (in < n * outputs ? own[id % (int) n] : testOwn[id % 16]);
        };
        loss->slope = [&](int id) { return slopes[id % (int) n]; };
        exits->done = [&](size_t e, float, int64_t) { return e >= epochs || e >= 50; };
        auto nn = lineNet(dir, lr, outputs);
        nn->setSilentMode(silent);
        nn->setLossFunction(loss);
        nn->setExitStrategy(exits);
        vf::probe("train");
        double first = weightOf(nn);
        shared_ptr<TrainingResult> result;
        Clock::time_point began = Clock::now();
        {
            unique_ptr<Quiet> q(silent ? nullptr : new Quiet);
            result = useTest ? nn->train(data, tests, bs, keepBest ? best : last) : nn->train(data, bs, keepBest ? best : last);
        }
        vf::probe("judge");
        // --- the log
        ostringstream sc;
        sc << n << " records, batches of " << bs << ", " << epochs << " epochs, " << outputs << " output(s), " << tests->n << " test records, policy " << (keepBest ? "best" : "last");
        string ctx = " (" + sc.str() + ")";
        vector<double> reported, trainLoss, after;
        double w = first;
        size_t i = 0, e = 0;
        bool okOnce = true, okBatch = true, okLoss = true, okTest = true, okEpoch = true, okTestPure = true;
        string bad;
        while (i < log.e.size()) {
            // one epoch: up to its epochEnd
            vector<int> seen;
            vector<int> testSeen;
            double sum = 0, testSum = 0;
            vector<double> batch;
            size_t lossesIn = 0, testLosses = 0, inBatch = 0;
            bool ended = false;
            for (; i < log.e.size(); i++) {
                auto &x = log.e[i];
                if (x.kind == Event::record) {
                    if ((int) inBatch == bs) {
                        double m = 0;
                        for (auto d: batch) m += d;
                        w -= lr * m / (double) bs;
                        batch.clear();
                        inBatch = 0;
                    }
                    seen.push_back(x.id);
                    inBatch++;
                } else if (x.kind == Event::testRecord) {
                    if (inBatch) { // the last batch of the epoch, full or not
                        double m = 0;
                        for (auto d: batch) m += d;
                        w -= lr * m / (double) inBatch;
                        batch.clear();
                        inBatch = 0;
                    }
                    testSeen.push_back(x.id);
                } else if (x.kind == Event::loss) {
                    if (testSeen.empty()) sum += x.value, lossesIn++; else testSum += x.value, testLosses++;
                    if (outputs == 1) {
                        bool same = fabs(x.weight - w) <= 1e-5 * (1 + fabs(w));
                        if (!same && (testSeen.empty() ? okBatch : okTestPure))
                            bad = "record " + to_string(seen.size()) + " of epoch " + to_string(e + 1) + " was predicted with the weight " + num(x.weight) + ", expected " + num(w);
                        (testSeen.empty() ? okBatch : okTestPure) &= same;
                    }
                } else if (x.kind == Event::derivative && outputs == 1) batch.push_back(x.value);
                else if (x.kind == Event::epochEnd) {
                    ended = true;
                    break;
                }
            }
            if (!ended) { // only the dataset's final restart may follow
                okEpoch &= seen.empty() && testSeen.empty();
                break;
            }
            if (inBatch) {
                double m = 0;
                for (auto d: batch) m += d;
                w -= lr * m / (double) inBatch;
            }
            auto &x = log.e[i];
            i++;
            e++;
            vector<int> all = seen, every(n);
            sort(all.begin(), all.end());
            iota(every.begin(), every.end(), 0);
            okOnce &= all == every && lossesIn == n * outputs;
            sort(testSeen.begin(), testSeen.end());
            vector<int> everyTest(tests->n);
            iota(everyTest.begin(), everyTest.end(), 0);
            okTest &= testSeen == everyTest;
            double tl = sum / (double) (n * outputs), want = useTest ? testSum / (double) (tests->n * outputs) : tl;
            if (!vf::near(x.value, want, 1e-4, 1e-6)) {
                okLoss = false;
                bad = "epoch " + to_string(e) + " reported the loss " + num(x.value) + ", its records averaged " + num(want);
            }
            okEpoch &= x.epoch == e;
            reported.push_back(want);
            trainLoss.push_back(tl);
            after.push_back(w);
        }
        vf::check(okOnce, "records-once", "an epoch did not use every record exactly once" + ctx);
        vf::check(okTest, "test-records-once", "an epoch did not use every test record exactly once" + ctx);
        vf::check(okBatch, "batches", bad + ctx);
        vf::check(okTestPure, "testing-changes-weights", bad + ctx);
        vf::check(okLoss, "reported-loss", bad + ctx);
        vf::check(okEpoch && e == epochs, "epoch-count", "ran " + to_string(e) + " epochs" + ctx);
        if (e != epochs || reported.empty()) return;
        // --- the result
        size_t bestEpoch = min_element(reported.begin(), reported.end()) - reported.begin();
        double got = weightOf(nn);
        if (outputs == 1) {
            if (keepBest) {
                bool ok = false;
                for (size_t k = 0; k < after.size(); k++) ok |= vf::near(reported[k], reported[bestEpoch], 1e-5, 0) && vf::near(got, after[k], 1e-5, 1e-5);
                vf::check(ok, "best-weights", "returned the weight " + num(got) + ", the best epoch " + to_string(bestEpoch + 1) + " ended with " + num(after[bestEpoch]) + ctx);
                if (bestEpoch + 1 < e) vf::count("best_before_last");
            } else vf::check(vf::near(got, after.back(), 1e-5, 1e-5), "last-weights", "returned the weight " + num(got) + ", the last epoch ended with " + num(after.back()) + ctx);
        }
        double bt = *min_element(trainLoss.begin(), trainLoss.end());
        size_t kept = keepBest ? bestEpoch : e - 1;
        vf::check(vf::near(result->best_train_loss, bt, 1e-4, 1e-6), "best-train-loss", "reports " + num(result->best_train_loss) + ", the best was " + num(bt) + ctx);
        vf::check(vf::near(result->initial_train_loss, trainLoss[0], 1e-4, 1e-6), "initial-train-loss", "reports " + num(result->initial_train_loss) + ", it was " + num(trainLoss[0]) + ctx);
        vf::check(vf::near(result->initial_test_loss, reported[0], 1e-4, 1e-6), "initial-test-loss", "reports " + num(result->initial_test_loss) + ", it was " + num(reported[0]) + ctx);
        vf::check(vf::near(result->final_test_loss, reported[kept], 1e-4, 1e-6), "final-loss",
                  "reports " + num(result->final_test_loss) + " for the model it returns, that epoch's loss was " + num(reported[kept]) + ctx);
        bool near2 = false; // several epochs may share the lowest loss
        for (size_t k = 0; k < reported.size(); k++) near2 |= keepBest && vf::near(reported[k], reported[kept], 1e-5, 0) && result->epochs == k + 1;
        vf::check(result->epochs == kept + 1 || near2, "result-epochs",
                  "reports " + to_string(result->epochs) + " epochs for a model trained for " + to_string(kept + 1) + " of " + to_string(e) + (silent ? ", silent" : ", not silent") + ctx);
        vf::check(result->batch_size == bs && result->total_records == n && vf::near(result->learning_rate, lr, 1e-6, 0), "result-settings", "settings in the result are wrong" + ctx);
        auto ran = chrono::duration_cast<chrono::milliseconds>(Clock::now() - began).count();
        vf::check((long long) result->training_time_ms <= ran + 1, "result-time", "reports " + to_string(result->training_time_ms) + " ms, the run took " + to_string(ran) + ctx);
        auto left = leftovers(dir);
        vf::check(left.empty(), "leftover-checkpoint", left.empty() ? "" : left[0] + " is left behind" + ctx);
        vf::nontrivial(sc.str() + num(first) + num(lr));
        vf::count("epochs_checked", (long long) e);
        vf::count("events", (long long) log.e.size());
        if (n % bs) vf::count("partial_batches");
        vf::count(keepBest ? "policy_best" : "policy_last");
        vf::count(useTest ? "with_test_set" : "without_test_set");
        if (outputs > 1) vf::count("several_outputs");
        vf::count(silent ? "silent" : "not_silent");
        vf::sample(sc.str());
    });
    vf::section("time", 24, 400, [] { // the elapsed time given to the stopping rule is that of the whole run
        auto &g = rng();
        string dir = vf::freshDir("repo");
        Log log;
        auto data = make_shared<SpySet>(log, g.range(1, 4), false);
        data->sleep_ms = (int) g.range(3, 9);
        auto loss = make_shared<SpyLoss>(log);
        loss->loss = [&](int) { return 1.0; };
        loss->slope = [&](int) { return 0.1; };
        long long limit = g.range(10, 45);
        auto inner = make_shared<DefaultExitStrategy>(1000000, limit, 1000000, -1e30f, 0.0f, g.range(0, 2), 1e30f);
        auto exits = make_shared<SpyExit>(log);
        size_t ran = 0;
        exits->done = [&](size_t e, float l, int64_t ms) {
            ran = e;
            return inner->isDone(e, l, ms) || e >= 60; // stop a runaway
        };
        auto nn = lineNet(dir, 0.1f);
        nn->setSilentMode(true);
        nn->setLossFunction(loss);
        nn->setExitStrategy(exits);
        auto began = Clock::now();
        nn->train(data, 1, last);
        Clock::time_point firstRecord, lastRecord;
        bool any = false;
        long long prev = 0;
        string bad;
        for (auto &x: log.e) {
            if (x.kind == Event::record) {
                if (!any) firstRecord = x.at, any = true;
                lastRecord = x.at;
            }
            if (x.kind != Event::epochEnd) continue;
            auto lo = chrono::duration_cast<chrono::milliseconds>(lastRecord - firstRecord).count() - 1;
            auto hi = chrono::duration_cast<chrono::milliseconds>(x.at - began).count() + 1;
            if ((x.elapsed < lo || x.elapsed > hi || x.elapsed < prev) && bad.empty())
                bad = "after epoch " + to_string(x.epoch) + " the elapsed time given was " + to_string(x.elapsed) + " ms, it was at least " + to_string(lo) + " and at most " + to_string(hi);
            prev = x.elapsed;
            if (lo > limit + 1 && x.epoch < ran && x.epoch > 2 && bad.empty()) bad = "training went on after epoch " + to_string(x.epoch) + " though " + to_string(lo) + " ms had passed and the limit is " + to_string(limit);
            vf::count("times_checked");
        }
        vf::check(bad.empty(), "elapsed-time", bad);
        vf::nontrivial(to_string(limit) + "/" + to_string(data->sleep_ms) + "/" + to_string(ran));
    });
    vf::section("stopping", 3000, 200000, [] { // the default stopping rule against its description
        auto &g = rng();
        size_t patience = g.range(1, 6), maxE = g.range(1, 14), minE = g.range(0, 5);
        long long maxMs = g.chance(0.5) ? 1000000 : g.range(5, 60);
        float zero = (float) g.pick(vector<double>{0.001, 0.1, 0.0}), improve = (float) g.pick(vector<double>{0, 1e-5, 0.1}), degrade = (float) g.pick(vector<double>{0.05, 0.25, 1e9});
        DefaultExitStrategy s(patience, maxMs, maxE, zero, improve, minE, degrade);
        double low = INFINITY;
        size_t lowAt = 0;
        long long ms = 0;
        double loss = g.real(0.2, 4);
        ostringstream sc;
        sc << patience << " " << maxMs << " " << maxE << " " << zero << " " << improve << " " << minE << " " << degrade << ":";
        for (size_t e = 1; e < 40; e++) {
            ms += g.range(0, 12);
            if (g.chance(0.05)) loss = 0;
            else if (g.chance(0.03)) loss = NAN;
            else if (!(loss > 0) || g.chance(0.3)) loss = g.real(0.0, 4);
            else loss *= g.real(0.6, 1.2);
            float fl = (float) loss;
            sc << " " << fl;
            bool edge = fabs((double) fl + improve - low) < 1e-6;
            if (fl + improve <= (float) low) low = fl, lowAt = e;
            double worse = (fl - low) / low;
            edge |= fabs(worse - degrade) < 1e-5 * degrade || fabs(fl - zero) < 1e-9;
            bool want = e >= minE && (e >= maxE || worse >= degrade || ms >= maxMs || e - lowAt >= patience || fl <= zero);
            vf::probe("isDone");
            bool got = s.isDone(e, fl, ms);
            if (edge && got != want) return; // rounding decides
            string ctx = " at epoch " + to_string(e) + " of " + sc.str() + ", " + to_string(ms) + " ms";
            vf::check(got == want, want ? "stops-too-late" : "stops-too-early", string("isDone is ") + (got ? "true" : "false") + ctx);
            vf::count(want ? "stops" : "continues");
            if (got) {
                string why = s.whyDone(e, fl, ms);
                vf::check(why.find("not be done") == string::npos && why != "Unknown", "why-done", "the reason for stopping is '" + why + "'" + ctx);
                bool cause = (why.find("Maximum Epochs") != string::npos && e >= maxE) || (why.find("Degradation") != string::npos && worse >= degrade * 0.9999) ||
                             (why.find("Maximum Elapsed") != string::npos && ms >= maxMs) || (why.find("Patience") != string::npos && e - lowAt >= patience) ||
                             (why.find("Zero Precision") != string::npos && fl <= zero);
                vf::check(cause, "why-done", "the reason '" + why + "' does not hold" + ctx);
                if (e >= maxE) vf::count("stop:epochs");
                else if (ms >= maxMs) vf::count("stop:time");
                else if (fl <= zero) vf::count("stop:zero");
                else if (e - lowAt >= patience) vf::count("stop:patience");
                else vf::count("stop:degradation");
                break;
            }
        }
        vf::nontrivial(sc.str());
    });
    vf::section("again", 60, 2000, [] { // a network can be trained again and again
        auto &g = rng();
        string dir = vf::freshDir("repo");
        auto nn = lineNet(dir, 0.05f);
        nn->setSilentMode(true);
        vector<vf::Record> rs;
        for (long long i = g.range(2, 6); i > 0; i--) {
            X a(1, 1, 1), b(1, 1, 1);
            a.v[0] = g.real(-1, 1);
            b.v[0] = 2 * a.v[0] + g.real(-0.3, 0.3);
            rs.push_back({{a}, {b}});
        }
        int way = (int) g.range(0, 2);
        if (way == 1) nn->useHighPrecisionExitStrategy();
        if (way == 2) nn->useTestPrecisionExitStrategy();
        string bad;
        size_t runs = g.range(2, 4);
        for (size_t k = 0; k < runs && bad.empty(); k++) {
            if (k && g.chance(0.3)) { // start over from elsewhere
                vf::Params p;
                X x(1, 1, 1);
                x.v[0] = g.real(-3, 3);
                p["1_full"] = x;
                vf::writeParams(p, nn, dir + "/k");
            }
            vf::probe("train-again");
            try {
                auto r = nn->train(vf::dataset(rs), 1, g.chance(0.5) ? best : last);
                if (!isfinite(r->final_test_loss)) bad = "run " + to_string(k + 1) + " reports no loss";
            } catch (exception &e) {
                bad = "run " + to_string(k + 1) + " on the same network failed: " + e.what();
            }
        }
        vf::check(bad.empty(), "train-again", bad);
        vf::nontrivial(to_string(weightOf(nn)));
        vf::count("trained_again", (long long) runs);
    });
    vf::section("refused", 60, 1000, [] { // sizes that make no sense are refused, and a NaN leaves no half-made checkpoint
        auto &g = rng();
        string dir = vf::freshDir("repo");
        Log log;
        size_t n = g.range(0, 5);
        auto data = make_shared<SpySet>(log, n, false);
        auto loss = make_shared<SpyLoss>(log);
        bool nan = n > 0 && g.chance(0.5);
        size_t at = g.range(0, 8), k = 0;
        loss->loss = [&](int) { return nan && k++ >= at ? (double) NAN : 1.0 / (double) (k + 1); };
        loss->slope = [&](int) { return 0.1; };
        auto exits = make_shared<SpyExit>(log);
        exits->done = [&](size_t e, float, int64_t) { return e >= 12; };
        auto nn = lineNet(dir, 0.1f);
        bool silent = g.chance(0.5);
        nn->setSilentMode(silent);
        nn->setLossFunction(loss);
        nn->setExitStrategy(exits);
        int bs = nan ? (int) g.range(1, (long long) n) : g.pick(vector<int>{0, -1, -7, (int) n + 1, (int) n + 100});
        bool threw = false;
        double before = weightOf(nn);
        vf::probe(nan ? "nan-loss" : "bad-batch-size");
        try {
            unique_ptr<Quiet> q(silent ? nullptr : new Quiet);
            nn->train(data, bs, g.chance(0.7) ? best : last);
        } catch (exception &) {
            threw = true;
        }
        if (nan) vf::check(threw, "nan-loss-hidden", "a loss that is not a number went unnoticed");
        else {
            vf::check(threw, "bad-batch-size-accepted", "a batch size of " + to_string(bs) + " was accepted for " + to_string(n) + " records");
            vf::check(weightOf(nn) == before, "bad-batch-size-trained", "a refused training changed the weights");
        }
        auto left = leftovers(dir);
        vf::check(left.empty(), "leftover-checkpoint", left.empty() ? "" : left[0] + " is left behind after a failed training");
        vf::count(nan ? "nan_runs" : "refused_sizes");
        vf::nontrivial(to_string(bs) + "/" + to_string(n) + "/" + to_string(nan) + to_string(at));
    });
    vf::section("accuracy", 300, 10000, [] { // the share of records that are right in every value of every output
        auto &g = rng();
        vf::NetSpec s;
        vf::VSpec h;
        size_t ni = g.range(1, 3);
        h.type = LayerType::full;
        h.inShape = {1, ni, 1};
        h.outShape = {1, (size_t) g.range(1, 3), 1};
        h.act = tanhDefault;
        s.v.push_back(h);
        bool categorical = g.chance(0.5);
        size_t outs = g.range(1, 3);
        for (size_t o = 0; o < outs; o++) {
            vf::VSpec v;
            v.type = LayerType::full;
            v.in = {0};
            v.inShape = h.outShape;
            v.outShape = {1, (size_t) g.range(categorical ? 2 : 1, 4), 1};
            v.output = true;
            v.bias = true;
            v.act = sigmoid;
            s.v.push_back(v);
        }
        string dir = vf::freshDir("m");
        auto nn = vf::build(s, "m", dir);
        auto p = vf::randParams(s, vf::readParams(s, nn, dir + "/k"));
        for (auto &e: p) for (auto &x: e.second.v) x *= 4;
        vf::writeParams(p, nn, dir + "/k");
        auto order = s.outputOrder();
        vector<vf::Record> rs;
        size_t right = 0, n = g.range(1, 8), considered = 0;
        int limit = g.chance(0.4) ? (int) g.range(1, 10) : -1;
        for (size_t i = 0; i < n; i++) {
            vf::Record r;
            r.given = {vf::randX(1, ni, 1, -1, 1)};
            auto o = vf::eval(s, p, r.given);
            bool ok = true, doubt = false;
            int mode = (int) g.range(0, 2);
            for (int j: order) {
                X e = o[j];
                size_t top = max_element(e.v.begin(), e.v.end()) - e.v.begin();
                auto sorted = e.v;
                sort(sorted.rbegin(), sorted.rend());
                if (categorical) doubt |= sorted[0] - sorted[1] < 1e-3; else for (auto x: e.v) doubt |= fabs(x - 0.5) < 1e-3;
                if (categorical) {
                    for (auto &x: e.v) x = 0;
                    e.v[top] = 1;
                } else for (auto &x: e.v) x = round(x);
                if (mode && g.chance(mode == 1 ? 0.3 : 0.9)) { // spoil one value of this output
                    size_t k = g.range(0, (long long) e.v.size() - 1);
                    if (categorical) {
                        ok &= k == top;
                        e.v[top] = 0;
                        e.v[k] = 1;
                    } else {
                        ok = false;
                        e.v[k] = 1 - e.v[k];
                    }
                }
                r.expected.push_back(e);
            }
            if (doubt) {
                vf::count("doubtful_records");
                continue;
            }
            rs.push_back(r);
            if (limit < 0 || (int) considered < limit) {
                considered++;
                right += ok;
            }
        }
        if (rs.empty()) return;
        double want = (double) right / (double) considered, got;
        auto data = vf::dataset(rs);
        if (g.chance(0.3)) data->nextRecord();
        vf::probe(categorical ? "categorical-accuracy" : "binary-accuracy");
        if (categorical) {
            vector<shared_ptr<RawDecoder>> decoders;
            for (int j: order) {
                vector<string> labels;
                for (size_t k = 0; k < s.v[j].outShape[1]; k++) labels.push_back("label" + to_string(k));
                decoders.push_back(make_shared<BestTextCategoryDecoder>(labels));
            }
            got = nn->compute_categorical_accuracy(data, decoders, limit);
        } else got = nn->compute_binary_accuracy(data, limit);
        vf::check(vf::near(got, want, 1e-5, 1e-6), categorical ? "categorical-accuracy" : "binary-accuracy",
                  "reports " + num(got) + ", " + to_string(right) + " of " + to_string(considered) + " records are right, " + s.str());
        vf::nontrivial(s.str() + num(want));
        vf::count(categorical ? "categorical" : "binary");
        if (right > 0 && right < considered) vf::count("mixed_accuracy");
    });
    for (auto c: {"partial_batches", "policy_best", "policy_last", "with_test_set", "without_test_set", "several_outputs", "silent", "not_silent", "best_before_last",
                  "nan_runs", "refused_sizes", "categorical", "binary", "mixed_accuracy", "stop:epochs", "stop:time", "stop:zero", "stop:patience", "stop:degradation"})
        vf::require(c, 10);
    vf::require("epochs_checked", 500);
    vf::require("times_checked", 50);
    vf::require("trained_again", 50);
    return vf::main();
}
