// C08: a pass over a dataset visits every record exactly once.
#include <bits/stdc++.h>
#include "lang/interpreter.hpp"
#include "common.hpp"

using namespace happyml;
using vf::rng;

typedef shared_ptr<BinaryColumnMetadata> Meta;

static Meta column(uint64_t rows, uint64_t columns) {
    auto m = make_shared<BinaryColumnMetadata>();
    m->purpose = 'N';
    m->rows = rows;
    m->columns = columns;
    m->channels = 1;
    m->name = "c";
    return m;
}

// record i holds i in its first given value and i + 0.5 in its first expected one
static void store(const string &path, size_t n, size_t columns) {
    vector<Meta> given{column(1, 1)}, expected{column(1, 1)};
    for (size_t i = 1; i < columns; i++) given.push_back(column(2, 2)), expected.push_back(column(1, 3));
    BinaryDatasetWriter writer(path, given, expected, 0);
    for (size_t i = 0; i < n; i++) {
        vector<shared_ptr<BaseTensor>> a, b;
        float v = (float) i;
        a.push_back(columnVector({v}));
        b.push_back(columnVector({v + 0.5f}));
        for (size_t k = 1; k < columns; k++) {
            a.push_back(tensor(vector<vector<vector<float>>>{{{v, v}, {v, v}}}));
            b.push_back(columnVector({v, v, v}));
        }
        writer.writeRow(a, b);
    }
    writer.close();
}

static shared_ptr<InMemoryTrainingDataSet> remember(size_t n, size_t columns) {
    auto &g = rng();
    auto d = make_shared<InMemoryTrainingDataSet>();
    for (size_t i = 0; i < n; i++) {
        float v = (float) i;
        if (columns == 1 && g.chance(0.5)) {
            d->addTrainingData(columnVector({v}), v + 0.5f);
            continue;
        }
        if (columns == 1 && g.chance(0.5)) {
            d->addTrainingData(columnVector({v}), columnVector({v + 0.5f}));
            continue;
        }
        vector<shared_ptr<BaseTensor>> a{columnVector({v})}, b{columnVector({v + 0.5f})};
        for (size_t k = 1; k < columns; k++) {
            a.push_back(tensor(vector<vector<vector<float>>>{{{v, v}, {v, v}}}));
            b.push_back(columnVector({v, v, v}));
        }
        d->addTrainingData(a, b);
    }
    return d;
}

// which record it is, -1 when it is torn
static long long identify(const shared_ptr<TrainingPair> &p, size_t columns) {
    auto a = p->getGiven(), b = p->getExpected();
    if (a.size() != columns || b.size() != columns || p->getGivenSize() != columns || p->getExpectedSize() != columns) return -1;
    float v = a[0]->getValue(0);
    if (b[0]->getValue(0) != v + 0.5f) return -1;
    for (size_t k = 1; k < columns; k++) {
        for (size_t i = 0; i < 4; i++) if (a[k]->getValue(i) != v) return -1;
        for (size_t i = 0; i < 3; i++) if (b[k]->getValue(i) != v) return -1;
    }
    return (long long) v;
}

struct Watched {
    shared_ptr<TrainingDataSet> set;
    size_t columns = 1;
    std::set<long long> records; // its own
    shared_ptr<Shuffler> shuffler;
    // the pass under way
    vector<long long> seen;
};

// a random history of next, restart and shuffle, judged as it happens
static void history(vector<Watched> &sets, long long steps, const string &key) {
    auto &g = rng();
    for (; steps > 0; steps--) {
        auto &w = sets[(size_t) g.range(0, (long long) sets.size() - 1)];
        size_t n = w.records.size();
        double what = g.unit();
        if (what < 0.08) {
            w.set->restart();
            w.seen.clear();
            vf::count("restarts");
        } else if (what < 0.12) { // shuffled only between passes, as in training
            if (!w.shuffler) {
                w.shuffler = make_shared<Shuffler>(n);
                w.set->setShuffler(w.shuffler);
            } else if (g.chance(0.1)) {
                w.set->setShuffler(nullptr);
                w.shuffler = nullptr;
            }
            if (w.shuffler) g.chance(0.5) ? w.shuffler->shuffle() : w.shuffler->shuffle_predictably();
            w.set->restart();
            w.seen.clear();
            vf::count("shuffles");
        } else if (what < 0.14) {
            bool threw = false;
            try { w.set->setShuffler(make_shared<Shuffler>(n + (size_t) g.range(1, 3))); } catch (std::exception &) { threw = true; }
            vf::check(threw, key + ":shuffler size", "a shuffler of another size is accepted");
        } else {
            auto p = w.set->nextRecord();
            if (w.seen.size() < n) {
                if (!vf::check(p != nullptr, key + ":ended early", to_string(w.seen.size()) + " of " + to_string(n))) return;
                long long r = identify(p, w.columns);
                if (!vf::check(r >= 0, key + ":torn", "given and expected values of different records")) return;
                if (!vf::check(w.records.count(r) == 1, key + ":foreign", "record " + to_string(r) + " is not one of this dataset")) return;
                if (!vf::check(std::find(w.seen.begin(), w.seen.end(), r) == w.seen.end(), key + ":repeated", "record " + to_string(r) + " twice in a pass")) return;
                w.seen.push_back(r);
                vf::count("records visited");
            } else {
                vf::count("ends reached");
                if (!vf::check(p == nullptr, key + ":no end", "a record after the last one")) return;
            }
        }
        if (!vf::check(w.set->recordCount() == n, key + ":count", to_string(w.set->recordCount()) + " for " + to_string(n))) return;
    }
}

static vector<long long> pass(TrainingDataSet &d, size_t columns) {
    vector<long long> r;
    d.restart();
    while (auto p = d.nextRecord()) {
        r.push_back(identify(p, columns));
        if (r.size() > 100000) break;
    }
    return r;
}

static void judge_shapes(TrainingDataSet &d, size_t columns, const string &key) {
    auto a = d.getGivenShapes(), b = d.getExpectedShapes();
    bool ok = a.size() == columns && b.size() == columns && a[0] == vector<size_t>{1, 1, 1} && b[0] == vector<size_t>{1, 1, 1} &&
              d.getGivenShape() == a[0] && d.getExpectedShape() == b[0];
    for (size_t i = 1; i < columns && ok; i++) ok = a[i] == vector<size_t>{2, 2, 1} && b[i] == vector<size_t>{1, 3, 1};
    vf::check(ok, key + ":shapes", "the shapes are not those of the records");
}

int main() {
    vf::rule("every record carries its number in each of its values, so a repeated, lost, foreign or torn record shows in the log of a pass");
    vf::rule("between two restarts each record of the dataset appears once, then nothing; parts of a split are disjoint, together complete, of the size asked for, "
             "the same every time, and a fair sample of the whole");

    vf::section("histories", 400, 6000, []() {
        auto &g = rng();
        vector<Watched> sets;
        size_t n = g.chance(0.1) ? (size_t) g.range(0, 2) : (size_t) vf::side(1, 40, 500);
        for (long long k = g.range(1, 3); k > 0; k--) {
            Watched w;
            w.columns = (size_t) g.range(1, 3);
            for (size_t i = 0; i < n; i++) w.records.insert((long long) i);
            if (g.chance(0.5)) w.set = remember(n, w.columns);
            else {
                string path = "h" + to_string(k) + ".bin";
                store(path, n, w.columns);
                w.set = g.chance(0.5) ? make_shared<BinaryDataSet>(path) : make_shared<BinaryDataSet>(path, vector<Meta>{}, vector<Meta>{});
            }
            sets.push_back(w);
        }
        if (n > 0) for (auto &w: sets) judge_shapes(*w.set, w.columns, "histories");
        if (g.chance(0.3) && sets.size() > 1) { // one shuffler for several, so that their records stay together
            auto s = make_shared<Shuffler>(n);
            for (auto &w: sets) w.set->setShuffler(s), w.set->restart();
            s->shuffle();
            for (size_t i = 0; i < n; i++) {
                long long first = -1;
                for (auto &w: sets) {
                    auto p = w.set->nextRecord();
                    long long r = p ? identify(p, w.columns) : -2;
                    if (first < 0) first = r;
                    vf::check(r == first, "together:apart", "datasets with one shuffler give different records");
                }
            }
            for (auto &w: sets) w.set->setShuffler(nullptr), w.set->restart();
            vf::count("shared shufflers");
        }
        history(sets, g.range(10, 250), "histories");
        vf::nontrivial(to_string(n) + "/" + to_string(sets.size()) + "/" + to_string(g.range(0, 1 << 30)));
    });

    vf::section("order", 60, 600, []() {
        // in memory: as added; a file: the same every time; a shuffler decides the order alone
        auto &g = rng();
        size_t n = (size_t) vf::side(0, 60, 900), columns = (size_t) g.range(1, 2);
        auto d = remember(n, columns);
        auto r = pass(*d, columns);
        bool ok = r.size() == n;
        for (size_t i = 0; i < n && ok; i++) ok = r[i] == (long long) i;
        vf::check(ok, "order:in memory", "records are not in the order they were added");
        auto s = make_shared<Shuffler>(n);
        d->setShuffler(s);
        s->shuffle();
        r = pass(*d, columns);
        ok = r.size() == n;
        for (size_t i = 0; i < n && ok; i++) ok = r[i] == (long long) s->getShuffledIndex(i);
        vf::check(ok, "order:shuffled", "records are not in the order of the shuffler");
        bool threw = false;
        try { d->addTrainingData(columnVector({1.f}), 1.5f); } catch (std::exception &) { threw = true; }
        vf::check(threw || d->recordCount() == n + 1, "order:added after shuffler", "");
        store("o.bin", n, columns);
        BinaryDataSet a("o.bin"), b("o.bin");
        auto x = pass(a, columns);
        vf::check(x == pass(b, columns) && x == pass(a, columns), "order:file", "a file without a shuffler is not read in the same order every time");
        ok = x.size() == n;
        for (size_t i = 0; i < n && ok; i++) ok = x[i] == (long long) i;
        vf::check(ok, "order:file order", "a file that is neither split nor shuffled is not read in its order");
        vf::nontrivial("order " + to_string(n) + "/" + to_string(columns));
    });

    vf::section("shuffler", 100, 2000, []() {
        auto &g = rng();
        size_t n = g.chance(0.1) ? (size_t) g.range(0, 3) : (size_t) vf::side(2, 500, 6000);
        Shuffler s(n);
        vector<size_t> last;
        size_t moved = 0, rounds = (size_t) g.range(1, 6);
        for (size_t k = 0; k < rounds; k++) {
            if (k > 0) g.chance(0.8) ? s.shuffle() : s.shuffle_predictably();
            vector<size_t> now;
            for (size_t i = 0; i < n; i++) now.push_back(s.getShuffledIndex(i));
            auto sorted = now;
            std::sort(sorted.begin(), sorted.end());
            bool ok = s.getSize() == n;
            for (size_t i = 0; i < n && ok; i++) ok = sorted[i] == i;
            vf::check(ok, "shuffler:permutation", to_string(n));
            if (k == 0) {
                for (size_t i = 0; i < n; i++) vf::check(now[i] == i, "shuffler:unshuffled", "");
            } else if (now != last) moved++;
            last = now;
        }
        if (n > 20 && rounds > 1) vf::check(moved == rounds - 1, "shuffler:stuck", "shuffling " + to_string(n) + " elements changed nothing");
        vf::nontrivial("shuffler " + to_string(n) + "/" + to_string(rounds));
    });

    vf::section("splits", 500, 8000, []() {
        auto &g = rng();
        size_t n = g.chance(0.2) ? (size_t) g.range(1, 12) : (size_t) g.range(1, 150), columns = g.chance(0.8) ? 1 : 2;
        store("s.bin", n, columns);
        int percent = g.pick(vector<int>{90, 80, 70, 50, 20, 10, 75, 33, (int) g.range(1, 99)});
        float first = (float) percent / 100.f, second = -(float) (100 - percent) / 100.f;
        bool own = g.chance(0.3);
        auto make = [&](float split) {
            return own ? make_shared<BinaryDataSet>("s.bin", vector<Meta>{}, vector<Meta>{}, split) : make_shared<BinaryDataSet>("s.bin", split);
        };
        auto a = make(first), b = make(second);
        string what = to_string(n) + " records split at " + to_string(percent) + "%";
        auto x = pass(*a, columns), y = pass(*b, columns);
        std::set<long long> sx(x.begin(), x.end()), sy(y.begin(), y.end());
        vf::check(sx.size() == x.size() && sy.size() == y.size() && a->recordCount() == x.size() && b->recordCount() == y.size(), "splits:repeated", what);
        vector<long long> both;
        std::set_intersection(sx.begin(), sx.end(), sy.begin(), sy.end(), std::back_inserter(both));
        vf::check(both.empty(), "splits:overlap", to_string(both.size()) + " records are in both parts of " + what);
        vf::check(x.size() + y.size() - both.size() == n, "splits:lost", to_string(x.size()) + " and " + to_string(y.size()) + " of " + what);
        vf::check(std::fabs((double) x.size() - (double) n * percent / 100.) <= 1.0001, "splits:size", to_string(x.size()) + " of " + what);
        vf::check(pass(*make(first), columns) == x && pass(*make(second), columns) == y, "splits:differ", "not the same parts every time, of " + what);
        if (g.chance(0.3) && !x.empty() && !y.empty()) {
            Watched w, v;
            w.set = a, v.set = b;
            w.columns = v.columns = columns;
            w.records = sx, v.records = sy;
            w.set->restart(), v.set->restart();
            vector<Watched> sets{w, v};
            history(sets, 150, "splits");
        }
        // fair: with the records in order, a part has its share of the first and of the second half
        if (n >= 100 && percent >= 20 && percent <= 80) {
            double low = 0;
            for (auto r: x) low += r < (long long) n / 2;
            double share = low / (double) x.size(), sigma = std::sqrt(0.25 / (double) x.size() * (1 - percent / 100.));
            vf::check(std::fabs(share - 0.5) < 6 * sigma + 0.02, "splits:unfair", to_string(share) + " of a part are from the first half of " + what);
            vf::count("fairness judged");
        }
        vf::count("splits");
        vf::nontrivial(what);
        vf::sample(what + ": " + to_string(x.size()) + " + " + to_string(y.size()));
    });

    vf::section("large split", 6, 40, []() {
        auto &g = rng();
        size_t n = (size_t) g.range(2000, 12000);
        store("l.bin", n, 1);
        int percent = (int) g.range(5, 95);
        BinaryDataSet a("l.bin", (float) percent / 100.f), b("l.bin", -(float) (100 - percent) / 100.f);
        auto x = pass(a, 1), y = pass(b, 1);
        x.insert(x.end(), y.begin(), y.end());
        std::sort(x.begin(), x.end());
        bool ok = x.size() == n;
        for (size_t i = 0; i < n && ok; i++) ok = x[i] == (long long) i;
        vf::check(ok, "splits:overlap", to_string(n) + " records at " + to_string(percent) + "%");
        vf::nontrivial("large " + to_string(n) + "/" + to_string(percent));
    });

    vf::require("records visited", 5000);
    vf::require("ends reached", 300);
    vf::require("splits", 100);
    vf::require("fairness judged", 20);
    vf::require("shared shufflers", 10);
    return vf::main();
}
