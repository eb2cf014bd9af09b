// C25: a task made from a dataset answers every question with one of the dataset's labels, the same each time, and is the one that was measured.
#include <bits/stdc++.h>
#include "lang.hpp"

using namespace lang;

static vector<string> cells(const string &line) {
    vector<string> r{""};
    for (char c: line) {
        if (c == '|') r.emplace_back();
        else r.back() += c;
    }
    for (auto &c: r) c = ds::trim(c);
    return r;
}

static vector<vector<string>> results(const string &out) {
    vector<vector<string>> r;
    std::istringstream in(out);
    string line;
    bool seen = false, header = true;
    while (std::getline(in, line)) {
        if (seen) {
            if (header) header = false;
            else r.push_back(cells(line));
        } else if (line.rfind("Results:", 0) == 0) seen = true;
    }
    return r;
}

// records whose labels are decided by their numbers, or by nothing
struct Problem {
    ds::Source s;
    bool image = false, learnable = true;
    size_t outputs = 1;
};

static Problem problem(size_t least, size_t most, bool images) {
    auto &g = rng();
    Problem p;
    auto &s = p.s;
    p.image = images && g.chance(0.3);
    p.learnable = g.chance(0.7);
    p.outputs = g.chance(0.25) ? 2 : 1;
    size_t pos = 0;
    size_t numbers = p.image ? 0 : (size_t) g.range(1, 3);
    auto add = [&](const string &use, const string &type, size_t rows, size_t columns) {
        ds::Col c;
        c.use = use;
        c.type = type;
        c.name = use.substr(0, 1) + "_" + to_string(s.cols.size());
        c.rows = rows, c.columns = columns, c.start = pos;
        pos += c.width();
        s.cols.push_back(c);
    };
    if (p.image) add("given", "image", (size_t) g.range(1, 7), (size_t) g.range(1, 7));
    for (size_t i = 0; i < numbers; i++) add("given", "number", 1, (size_t) g.range(1, 2));
    bool word = !p.image && g.chance(0.3);
    if (word) add("given", "label", 1, 1);
    for (size_t i = 0; i < p.outputs; i++) add("expected", "label", 1, 1);
    s.width = pos;
    size_t n = (size_t) g.range((long long) least, (long long) most);
    for (size_t i = 0; i < n; i++) {
        ds::Record r(pos);
        bool high = i % 2 == 1;
        for (auto &c: s.cols)
            for (size_t k = 0; k < c.width(); k++) {
                string cell;
                if (c.use == "expected") {
                    bool yes = p.learnable ? high : g.chance(0.5);
                    if (i < 2) yes = high; // both are needed
                    cell = yes ? "yes" : "no";
                } else if (c.type == "label") cell = high ? "high" : "low";
                else if (c.type == "image") cell = to_string((high ? 200 : 20) + g.range(0, 30));
                else cell = to_string((high ? 70 : 10) + (int) i) + "." + to_string(g.range(0, 9));
                r[c.start + k] = cell;
            }
        s.records.push_back(r);
    }
    ds::render(s);
    return p;
}

static void make(const World &w, const string &name, const ds::Source &s) {
    vf::writeFile(w.dir + "/data/" + name + ".csv", s.text);
    auto r = script(w, ds::statement(s, name, "file://../data/" + name + ".csv") + "\n");
    if (!vf::exists(w.set(name))) throw std::runtime_error("no dataset: " + r.out + r.err + r.how);
}

static Ran create(const World &w, const string &type, const string &goal, const string &set, const string &test, int timeout) {
    return run(w, [&] {
        auto r = CreateTaskStatement(type, "t", goal, set, test).execute(std::make_shared<ExecutionContext>());
        return r->isSuccessful();
    }, "", timeout);
}

static Ran ask(const World &w, const ds::Source &s, const ds::Record &r) {
    std::unordered_map<string, vector<HappyMLVariant>> in;
    for (auto &[name, values]: inputs(s, r)) {
        string lower = name;
        for (auto &c: lower) c = (char) tolower(c);
        for (auto &v: values) in[lower].emplace_back(v);
    }
    return run(w, [&] { return ExecuteTaskStatement("t", "", "", in).execute(std::make_shared<ExecutionContext>())->isSuccessful(); });
}

static Ran askAll(const World &w, const string &set) {
    return run(w, [&] { return ExecuteTaskStatement("t", "", set, {}).execute(std::make_shared<ExecutionContext>())->isSuccessful(); });
}

static std::map<string, string> outside(const World &w) {
    auto t = w.tree();
    for (auto i = t.begin(); i != t.end();) i = i->first.rfind("/happyml_repo/tasks", 0) == 0 || i->first.find("/logs") != string::npos ? t.erase(i) : std::next(i);
    return t;
}

// the last accuracy that was told
static double told(const string &out) {
    double a = -1;
    std::istringstream in(out);
    string line;
    while (std::getline(in, line)) if (line.rfind("Accuracy: ", 0) == 0) a = strtod(line.c_str() + 10, nullptr) / 100;
    return a;
}

static void usable(const World &w, const Problem &p, const string &key, const string &test, const string &out) {
    auto &s = p.s;
    std::set<string> labels{"yes", "no"};
    // every record, typed
    std::map<string, vector<string>> answers;
    for (auto &r: s.records) {
        auto a = ask(w, s, r);
        auto got = results(a.out);
        if (!vf::check(a.ok && a.done && got.size() == 1 && got[0].size() == p.outputs, key + ":answer", a.how + a.out + a.err)) return;
        for (auto &c: got[0]) vf::check(labels.count(c), key + ":label", c);
        answers[ds::key_of(s, r, "given")] = got[0];
        vf::count("answers");
    }
    // all of them, from the dataset, twice
    auto one = askAll(w, "d"), two = askAll(w, "d");
    if (!vf::check(one.ok && one.done && two.ok, key + ":answers", one.how + one.out + one.err)) return;
    vf::check(results(one.out) == results(two.out), key + ":answers differ", one.out + two.out);
    auto got = results(one.out);
    std::multiset<vector<string>> a, b;
    for (auto &[k, v]: answers) a.insert(v);
    for (auto &line: got) {
        bool any = false;
        for (size_t i = 0; i < p.outputs && i < line.size(); i++) any = any || !line[i].empty();
        if (any) b.insert(vector<string>(line.begin(), line.begin() + (long) std::min(p.outputs, line.size())));
    }
    vf::check(a == b, key + ":answers of the dataset", one.out);
    // what was measured is what there is
    string mark = w.dir + "/../accuracy";
    auto m = run(w, [&] {
        auto nn = loadNeuralNetworkForTraining("t", "../happyml_repo/tasks/");
        BinaryDatasetReader reader("../happyml_repo/datasets/d/dataset.bin");
        auto decoders = build_expected_decoders(false, reader);
        auto set = test.empty() ? std::make_shared<BinaryDataSet>("../happyml_repo/datasets/d/dataset.bin", -0.1f)
                                : std::make_shared<BinaryDataSet>("../happyml_repo/datasets/" + test + "/dataset.bin", reader.get_given_metadata(), reader.get_expected_metadata());
        // of each record, whether all of it is as expected
        size_t right = 0, n = 0;
        while (auto r = set->nextRecord()) {
            auto e = r->getExpected(), given = r->getGiven();
            auto q = nn->predict(given);
            for (size_t i = 0; i < e.size(); i++) {
                n++;
                if (decoders[i]->decodeBest(e[i]) == decoders[i]->decodeBest(q[i])) right++;
            }
        }
        vf::writeFile(mark, to_string((double) right / (double) n));
        return true;
    });
    if (!vf::check(m.ok, key + ":model", m.how + m.err)) return;
    double measured = strtod(vf::readFile(mark).c_str(), nullptr), said = told(out);
    if (said >= 0 && p.outputs == 1) vf::check(std::fabs(measured - said) < 0.0051, key + ":accuracy", "told " + to_string(said) + ", but it is " + to_string(measured));
    if (said >= 0) vf::count(said >= 0.9 ? "accurate tasks" : "inaccurate tasks");
    // the metadata of the task is that of the dataset
    BinaryDatasetReader x(w.set("d")), y(w.dir + "/happyml_repo/tasks/t/dataset.bin");
    auto same = [](const vector<std::shared_ptr<BinaryColumnMetadata>> &a, const vector<std::shared_ptr<BinaryColumnMetadata>> &b) {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); i++)
            if (a[i]->name != b[i]->name || a[i]->purpose != b[i]->purpose || a[i]->ordered_labels != b[i]->ordered_labels || a[i]->mean != b[i]->mean || a[i]->min_value != b[i]->min_value ||
                a[i]->max_value != b[i]->max_value || a[i]->standard_deviation != b[i]->standard_deviation || a[i]->is_normalized != b[i]->is_normalized || a[i]->is_standardized != b[i]->is_standardized ||
                a[i]->rows != b[i]->rows || a[i]->columns != b[i]->columns || a[i]->channels != b[i]->channels) return false;
        return true;
    };
    vf::check(same(x.get_given_metadata(), y.get_given_metadata()) && same(x.get_expected_metadata(), y.get_expected_metadata()), key + ":metadata", "");
    vf::count("usable tasks");
}

int main() {
    vf::rule("A case is a distinct dataset from which a task was made, or not, and then asked in several sessions.");
    vf::require("usable tasks", 10);
    vf::require("answers", 100);
    vf::require("refused", 10);

    // quick searches
    vf::section("speed", 40, 400, [] {
        auto &g = rng();
        World w("w");
        auto p = problem(4, 9, true);
        string test;
        if (p.s.records.size() < 3 || g.chance(0.4)) test = "e";
        make(w, "d", p.s);
        if (!test.empty()) {
            // the same records, in another order, so that its labels may be, too
            auto o = p.s;
            g.shuffle(o.records);
            if (g.chance(0.5)) o.records.resize((size_t) g.range(1, (long long) o.records.size()));
            ds::render(o);
            make(w, "e", o);
        }
        auto before = outside(w);
        auto r = create(w, "label", "speed", "d", test, 75);
        if (r.how == "timed out") {
            // some searches take long, but there are at most 30 experiments to begin with and 9 for each of 3 retries
            size_t experiments = 0;
            for (size_t at = 0; (at = r.out.find("__Experiment:", at)) != string::npos; at++) experiments++;
            vf::check(experiments <= 120, "speed:endless", to_string(experiments) + " experiments");
            vf::count("long searches", experiments <= 120);
            return;
        }
        if (!vf::check(!r.how.empty() && r.ok && r.done, "speed:failed", r.how + r.err + r.out.substr(r.out.size() > 500 ? r.out.size() - 500 : 0))) return;
        vf::check(ds::difference(before, outside(w)).empty(), "speed:changed something", ds::difference(before, outside(w)));
        usable(w, p, "speed", test, r.out);
        // again
        auto tree = w.tree();
        auto again = create(w, "label", g.pick(vector<string>{"speed", "memory", "accuracy"}), "d", g.chance(0.5) ? "" : "d", 60);
        vf::check(again.ok && again.done, "speed:again", again.how + again.err + again.out);
        vf::check(ds::difference(tree, w.tree()).empty(), "speed:again changed", ds::difference(tree, w.tree()));
        vf::nontrivial(p.s.text);
    });

    // searches that may take long, and only need to be right when they end
    vf::section("other goals", 8, 120, [] {
        auto &g = rng();
        World w("w");
        auto p = problem(4, 7, false);
        p.learnable = true;
        make(w, "d", p.s);
        string goal = g.pick(vector<string>{"accuracy", "memory", "accuracy"});
        auto before = outside(w);
        auto r = create(w, "label", goal, "d", "d", 40);
        if (r.how == "timed out") {
            vf::count("searches not waited for");
            return;
        }
        if (!vf::check(r.ok && r.done, "other goals:failed", r.how + r.err + r.out.substr(r.out.size() > 500 ? r.out.size() - 500 : 0))) return;
        vf::check(ds::difference(before, outside(w)).empty(), "other goals:changed something", "");
        usable(w, p, "other goals", "d", r.out);
        vf::nontrivial(p.s.text);
    });

    vf::section("refused", 60, 1000, [] {
        auto &g = rng();
        World w("w");
        auto p = problem(4, 6, false);
        string what = g.pick(vector<string>{"no dataset", "no test dataset", "type", "one record", "nothing expected", "incompatible test dataset", "unknown label", "damaged"});
        if (what == "one record") p.s.records.resize(1), ds::render(p.s);
        if (what == "nothing expected") {
            for (auto &c: p.s.cols) c.use = "given";
        }
        make(w, "d", p.s);
        string set = "d", test, type = "label";
        if (what == "no dataset") set = "nothing";
        if (what == "no test dataset") test = "nothing";
        if (what == "type") type = g.pick(vector<string>{"text", "number", "LABEL?", ""});
        if (what == "incompatible test dataset") {
            auto o = p.s;
            o.cols.erase(o.cols.begin() + (long) g.range(0, (long long) o.cols.size() - (long long) p.outputs - 1));
            if (o.of("given").empty()) return;
            make(w, test = "e", o);
        }
        if (what == "unknown label") {
            auto o = p.s;
            for (auto &c: o.cols) if (c.use == "expected") o.records[0][c.start] = "maybe";
            ds::render(o);
            make(w, test = "e", o);
        }
        if (what == "damaged") {
            auto b = vf::readFile(w.set("d"));
            vf::writeFile(w.set("d"), b.substr(0, (size_t) g.range(1, (long long) 30)));
        }
        auto before = outside(w);
        auto r = create(w, type, "speed", set, test, 100);
        vf::check(r.ok, "refused:" + what, r.how + r.err + r.out);
        vf::check(!r.done, "refused:accepted " + what, r.out.substr(r.out.size() > 500 ? r.out.size() - 500 : 0));
        vf::check(ds::difference(before, outside(w)).empty(), "refused:changed something", ds::difference(before, outside(w)));
        // it isn't mistaken for a task
        if (what == "one record" || what == "nothing expected" || what == "damaged") {
            auto again = create(w, type, "speed", set, test, 100);
            vf::check(again.ok && !again.done, "refused:accepted " + what + " again", again.how + again.out);
        } else {
            auto x = ask(w, p.s, p.s.records[0]);
            vf::check(!x.done, "refused:answers " + what, x.out);
        }
        vf::count("refused");
        vf::nontrivial(what + p.s.text);
    });
    return vf::main();
}
