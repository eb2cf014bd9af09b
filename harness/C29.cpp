// C29: work that is cut off at any moment leaves what was there before, or all of the new, or something that is known to be incomplete.
#include <bits/stdc++.h>
#include "lang.hpp"
#include <sys/syscall.h>
#include <sys/uio.h>
#include <fcntl.h>
#include <unistd.h>

using namespace lang;

// Every change of a file that the code makes passes here. The process ends, without any cleaning up, at the one chosen.
static bool armed = false;
static long until = -1;       // changes left
static double part = 0;       // how much of the last one still happens
static string from;           // counts only from the first change of a file with this in its path on
static long changes = 0;

static bool due(const string &path) {
    if (!armed) return false;
    if (!from.empty()) {
        if (path.find(from) == string::npos) return false;
        from.clear();
    }
    changes++;
    return until >= 0 && until-- == 0;
}

static string path_of(int fd) {
    char of[PATH_MAX];
    auto n = readlink(("/proc/self/fd/" + to_string(fd)).c_str(), of, sizeof of);
    return n < 0 ? "" : string(of, (size_t) n);
}

extern "C" ssize_t write(int fd, const void *b, size_t n) {
    if (armed && fd > 2 && due(path_of(fd))) {
        syscall(SYS_write, fd, b, (size_t) ((double) n * part));
        _exit(86);
    }
    return syscall(SYS_write, fd, b, n);
}

extern "C" ssize_t writev(int fd, const struct iovec *v, int n) {
    if (armed && fd > 2 && due(path_of(fd))) {
        if (n > 0) syscall(SYS_write, fd, v[0].iov_base, (size_t) ((double) v[0].iov_len * part));
        _exit(86);
    }
    return syscall(SYS_writev, fd, v, n);
}

extern "C" int rename(const char *a, const char *b) {
    if (armed && due(b)) _exit(86);
    return (int) syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b);
}

extern "C" int remove(const char *a) {
    if (armed && due(a)) _exit(86);
    int r = (int) syscall(SYS_unlinkat, AT_FDCWD, a, 0);
    if (r != 0 && (errno == EISDIR || errno == EPERM)) r = (int) syscall(SYS_unlinkat, AT_FDCWD, a, AT_REMOVEDIR);
    return r;
}

extern "C" int unlinkat(int dir, const char *a, int flags) {
    if (armed && due(path_of(dir) + "/" + a)) _exit(86);
    return (int) syscall(SYS_unlinkat, dir, a, flags);
}

extern "C" int mkdir(const char *a, mode_t m) {
    if (armed && due(a)) _exit(86);
    return (int) syscall(SYS_mkdirat, AT_FDCWD, a, m);
}

struct Cut {
    bool cut = false;
    long changes = 0;
    Ran ran;
};

static Cut cut(const World &w, long at, double how_much, const string &start, const std::function<bool()> &what, int timeout = 60) {
    string mark = w.dir + "/../changes";
    Cut c;
    c.ran = run(w, [&] {
        until = at;
        part = how_much;
        from = start;
        changes = 0;
        armed = true;
        bool r = what();
        armed = false;
        vf::writeFile(mark, to_string(changes));
        return r;
    }, "", timeout);
    c.cut = c.ran.how == "exit 86";
    if (!c.cut && vf::exists(mark)) c.changes = atol(vf::readFile(mark).c_str());
    std::filesystem::remove(mark);
    return c;
}

static bool make(const string &name, const ds::Source &s, const string &file) {
    vector<std::shared_ptr<ColumnGroup>> groups;
    size_t id = 1;
    for (auto &c: s.cols) groups.push_back(std::make_shared<ColumnGroup>(id++, c.start, c.width(), c.use, c.type, c.name, c.rows, c.columns, c.channels));
    return CreateDatasetStatement(name, "file://../data/" + file, s.header, groups, false).execute(std::make_shared<ExecutionContext>())->isSuccessful();
}

static ds::Source tiny() {
    auto &g = rng();
    ds::Source s;
    ds::Col a, b;
    a.use = "given", a.type = "number", a.name = "a";
    a.columns = (size_t) g.range(1, 3);
    b.use = "expected", b.type = "label", b.name = "b", b.start = a.columns;
    s.cols = {a, b};
    s.width = a.columns + 1;
    for (size_t i = 0; i < (size_t) g.range(4, 7); i++) {
        ds::Record r;
        for (size_t k = 0; k < a.columns; k++) r.push_back(to_string((i % 2 ? 80 : 10) + (int) i * 2 + (int) k));
        r.push_back(i % 2 ? "yes" : "no");
        s.records.push_back(r);
    }
    ds::render(s);
    return s;
}

int main() {
    vf::rule("A case is a distinct piece of work cut off at a distinct change of a file, looked at from another process, and then taken up again.");
    vf::require("cut", 200);
    vf::require("datasets cut off", 100);
    vf::require("tasks cut off", 10);
    vf::require("models cut off", 50);

    vf::section("dataset", 60, 600, [] {
        auto &g = rng();
        World w("w");
        auto s = ds::make(g.chance(0.1) ? 700 : 30);
        while (s.records.empty()) s = ds::make(30);
        string file = "s.csv";
        vf::writeFile(w.dir + "/data/" + file, s.text);
        // sometimes there is something else that must not be touched
        if (g.chance(0.5)) {
            auto o = ds::make(5);
            while (o.records.empty()) o = ds::make(5);
            vf::writeFile(w.dir + "/data/other.csv", o.text);
            run(w, [&] { return make("other", o, "other.csv"); });
        }
        World whole("whole", w);
        auto r = cut(whole, -1, 0, "", [&] { return make("d", s, file); });
        if (!vf::check(r.ran.ok && r.ran.done && r.changes > 2, "dataset:not made", r.ran.how + r.ran.err + r.ran.out)) return;
        auto wanted = vf::readFile(whole.set("d"));
        auto before = w.tree();
        set<long> moments;
        for (int i = 0; i < 3; i++) moments.insert(g.range(0, r.changes - 1));
        moments.insert(r.changes - 1 - g.range(0, 3));
        for (auto at: moments) {
            if (at < 0) continue;
            World x("x", w);
            double how_much = g.chance(0.4) ? 0 : g.unit();
            string story = "cut off at change " + to_string(at) + " of " + to_string(r.changes);
            auto c = cut(x, at, how_much, "", [&] { return make("d", s, file); });
            if (!vf::check(c.cut, "dataset:ran", c.ran.how + c.ran.err)) continue;
            vf::count("cut");
            vf::count("datasets cut off");
            bool there = false;
            if (g.chance(0.3)) { // and again
                auto again = cut(x, g.range(0, r.changes - 1), g.unit(), "", [&] { return make("d", s, file); });
                vf::check(again.cut || (again.ran.ok && again.ran.done), "dataset:again", story + again.ran.how + again.ran.err);
                story += " and again";
            }
            {
                auto e = run(x, [&] { return ExecutionContext::dataset_exists("d"); });
                there = e.done;
                vf::check(e.ok, "dataset:exists", e.how + e.err);
            }
            if (there) {
                vf::check(vf::readFile(x.set("d")) == wanted, "dataset:partial", story + " left " + to_string(vf::readFile(x.set("d")).size()) + " of " + to_string(wanted.size()) + " bytes");
                vf::count("complete when cut off");
            }
            auto t = run(x, [&] { return make("d", s, file); });
            vf::check(t.ok && t.done, "dataset:not taken up again", story + t.how + t.err + t.out);
            vf::check(vf::exists(x.set("d")) && vf::readFile(x.set("d")) == wanted, "dataset:different when taken up again", story);
            for (auto &[f, content]: before) vf::check(vf::exists(x.dir + f) && (content == "<dir>" || vf::readFile(x.dir + f) == content), "dataset:other files", story + " changed " + f);
            vf::nontrivial(s.text + story);
        }
    });

    vf::section("task", 24, 160, [] {
        auto &g = rng();
        World w("w");
        auto s = tiny();
        vf::writeFile(w.dir + "/data/s.csv", s.text);
        run(w, [&] { return make("d", s, "s.csv"); });
        if (!vf::check(vf::exists(w.set("d")), "task:no dataset", "")) return;
        auto create = [&] { return CreateTaskStatement("label", "t", "speed", "d", "d").execute(std::make_shared<ExecutionContext>())->isSuccessful(); };
        bool last = g.chance(0.75);
        long at = last ? g.range(0, 11) : g.range(0, 60);
        auto c = cut(w, at, g.chance(0.5) ? 0 : g.unit(), last ? "/tasks/t/model.config" : "", create, 60);
        string story = string(last ? "saved" : "made") + ", cut off at change " + to_string(at);
        if (c.ran.how.find("timed out") != string::npos) { vf::count("searches too long to judge"); return; }
        if (!vf::check(c.cut || (c.ran.ok && c.ran.done), "task:ran", c.ran.how + c.ran.err)) return;
        if (c.cut) vf::count("cut"), vf::count("tasks cut off");
        auto ask = [&] {
            std::unordered_map<string, vector<HappyMLVariant>> in;
            for (auto &[name, values]: inputs(s, s.records[0])) for (auto &v: values) in[name].emplace_back(v);
            return run(w, [&] { return ExecuteTaskStatement("t", "", "", in).execute(std::make_shared<ExecutionContext>())->isSuccessful(); });
        };
        auto answered = [&](const Ran &r) {
            auto p = r.out.find("Results:");
            if (p == string::npos) return false;
            std::istringstream in(r.out.substr(p));
            string l;
            std::getline(in, l);
            std::getline(in, l);
            std::getline(in, l);
            l = ds::trim(l);
            return l == "yes" || l == "no";
        };
        {
            // either it isn't one, or it works
            auto r = run(w, [&] {
                try {
                    std::unordered_map<string, vector<HappyMLVariant>> in;
                    for (auto &[name, values]: inputs(s, s.records[0])) for (auto &v: values) in[name].emplace_back(v);
                    return ExecuteTaskStatement("t", "", "", in).execute(std::make_shared<ExecutionContext>())->isSuccessful();
                } catch (std::exception &) { return false; }
            });
            vf::check(r.ok && (!r.done || answered(r)), "task:asked", story + r.how + r.err + r.out);
            if (r.done) vf::count("tasks complete when cut off");
        }
        auto t = run(w, create, "", 60);
        if (t.how.find("timed out") != string::npos) { vf::count("searches too long to judge"); return; }
        vf::check(t.ok && t.done, "task:not taken up again", story + t.how + t.err);
        auto r = ask();
        vf::check(r.ok && r.done && answered(r), "task:doesn't work when taken up again", story + r.how + r.err + r.out);
        vf::nontrivial(s.text + story);
    });

    vf::section("model", 60, 600, [] {
        auto &g = rng();
        World w("w");
        auto what = [&](int version) {
            auto b = neuralNetworkBuilder(g.chance(0.5) ? sgd : adam, "m", "../models");
            b->setLearningRate(0.01f + 0.001f * (float) version);
            return b;
        };
        size_t in = (size_t) g.range(1, 4), mid = (size_t) g.range(1, 40);
        auto build = [&](int version) {
            auto b = what(version);
            b->addInputLayer(in, mid, LayerType::full, ActivationType::tanhDefault)->setUseBias(true)->addOutput(2, ActivationType::tanhDefault);
            return b->build();
        };
        auto one = build(1), two = build(2);
        vector<float> q;
        for (size_t i = 0; i < in; i++) q.push_back((float) g.real(-1, 1));
        auto answer = [&](const std::shared_ptr<NeuralNetworkForTraining> &nn) {
            auto p = nn->predict(columnVector(q))[0];
            std::ostringstream o;
            o.precision(9);
            for (size_t i = 0; i < p->columnCount(); i++) o << p->getValue(0, i, 0) << " ";
            return o.str();
        };
        string a = answer(one), b = answer(two);
        std::filesystem::create_directories(w.dir + "/models");
        bool replaces = g.chance(0.7);
        if (replaces) run(w, [&] { one->saveWithOverwrite(); return true; });
        World whole("whole", w);
        auto r = cut(whole, -1, 0, "", [&] { two->saveWithOverwrite(); return true; });
        if (!vf::check(r.ran.ok && r.ran.done && r.changes > 2, "model:saved", r.ran.how + r.ran.err)) return;
        auto load = [&](const World &x) {
            return run(x, [&] {
                try {
                    auto nn = g.chance(0.5) ? loadNeuralNetworkForTraining("m", "../models") : loadNeuralNetworkForTraining("m", "../models");
                    cout << "answer:" << answer(nn) << endl;
                    return true;
                } catch (std::exception &e) { return false; }
            });
        };
        set<long> moments;
        for (int i = 0; i < 3; i++) moments.insert(g.range(0, r.changes - 1));
        for (auto at: moments) {
            World x("x", w);
            auto c = cut(x, at, g.chance(0.4) ? 0 : g.unit(), "", [&] { two->saveWithOverwrite(); return true; });
            string story = string(replaces ? "replaced" : "saved") + ", cut off at change " + to_string(at) + " of " + to_string(r.changes);
            if (!vf::check(c.cut, "model:ran", c.ran.how + c.ran.err)) continue;
            vf::count("cut");
            vf::count("models cut off");
            auto l = load(x);
            vf::check(l.ok, "model:loaded", story + l.how + l.err);
            if (l.done) {
                auto p = l.out.find("answer:");
                string got = p == string::npos ? "" : l.out.substr(p + 7);
                got = got.substr(0, got.find('\n'));
                vf::check((replaces && got == a) || got == b, "model:neither old nor new", story + ": " + got + " and not " + a + " or " + b);
            } else vf::count("incomplete models refused");
            // taken up again
            auto t = run(x, [&] { two->saveWithOverwrite(); return true; });
            vf::check(t.ok && t.done, "model:saved again", story + t.how + t.err);
            l = load(x);
            vf::check(l.ok && l.done && l.out.find("answer:" + b) != string::npos, "model:after saving again", story + l.out + l.err);
            vf::nontrivial(a + story);
        }
    });
    return vf::main();
}
