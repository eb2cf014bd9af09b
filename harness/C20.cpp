// C20: a saved model loads back as the same model, and no save mixes or damages others.
#include <bits/stdc++.h>
#include <thread>
#include "lang/interpreter.hpp"
#include "nets.hpp"

using namespace happyml;
using vf::rng;
using vf::X;
typedef shared_ptr<NeuralNetworkForTraining> Net;
typedef map<string, string> Files; // relative path -> bytes

static Files snapshot(const string &dir) {
    Files f;
    if (!filesystem::exists(dir)) return f;
    for (auto &e: filesystem::recursive_directory_iterator(dir))
        f[filesystem::relative(e.path(), dir).generic_string()] = e.is_directory() ? "<dir>" : vf::readFile(e.path().generic_string());
    return f;
}

static vector<vector<X>> predictions(const Net &nn, const vector<vf::Record> &rs) {
    vector<vector<X>> o;
    for (auto &r: rs) {
        vector<shared_ptr<BaseTensor>> in;
        for (auto &x: r.given) in.push_back(vf::toT(x));
        vector<X> one;
        for (auto &t: nn->predict(in)) one.push_back(vf::toX(t));
        o.push_back(one);
    }
    return o;
}

static bool sameX(const X &a, const X &b, double tol = 0) {
    if (a.r != b.r || a.c != b.c || a.k != b.k) return false;
    for (size_t i = 0; i < a.v.size(); i++) if (!(a.v[i] == b.v[i] || fabs(a.v[i] - b.v[i]) <= tol || (isnan(a.v[i]) && isnan(b.v[i])))) return false;
    return true;
}

static string diff(const vector<vector<X>> &a, const vector<vector<X>> &b) {
    for (size_t i = 0; i < a.size(); i++) {
        if (a[i].size() != b[i].size()) return to_string(b[i].size()) + " outputs instead of " + to_string(a[i].size());
        for (size_t j = 0; j < a[i].size(); j++)
            if (!sameX(a[i][j], b[i][j])) return "output " + to_string(j + 1) + " of input " + to_string(i + 1) + " is " + vf::show(b[i][j]) + " instead of " + vf::show(a[i][j]);
    }
    return "";
}

static string diff(const vf::Params &a, const vf::Params &b, double tol = 0) {
    if (a.size() != b.size()) return "different parameters";
    for (auto &e: a) {
        auto f = b.find(e.first);
        if (f == b.end()) return e.first + " is missing";
        if (!sameX(e.second, f->second, tol)) return e.first + " is " + vf::show(f->second) + " instead of " + vf::show(e.second);
    }
    return "";
}

static vf::NetSpec anyNet(bool drop) {
    auto &g = rng();
    vf::GenOptions go;
    go.drop = drop;
    go.low_bits = true;
    auto s = vf::genNet(go);
    s.opt = g.pick(vector<OptimizerType>{sgd, adam, sgdm, adam_with_decaying_momentum, sgdm_with_decaying_momentum});
    for (auto &v: s.v) {
        if ((v.type == LayerType::full || v.type == convolution2dValid) && g.chance(0.15)) v.bits = 8;
        if (g.chance(0.2)) v.clip = true, v.clip_threshold = (float) g.real(0.05, 9);
    }
    return s;
}

// the settings as the model itself writes them down
static string configOf(const Net &nn, const string &dir) {
    nn->saveAs(dir, true);
    return vf::readFile(dir + "/model.config");
}

static string expectedFiles(const vf::NetSpec &s, const Files &f, const string &config) {
    set<string> want{"model.config", "default"};
    for (auto &p: vf::paramNames(s)) want.insert("default/" + p + ".tensor");
    for (auto &w: want) if (!f.count(w)) return w + " is missing";
    for (auto &e: f) if (!want.count(e.first)) return e.first + " should not be there";
    if (f.at("model.config") != config) return "model.config describes another model";
    return "";
}

struct Silence { // the library explains itself on cerr
    streambuf *old = cerr.rdbuf();
    ostringstream sink;

    Silence() { cerr.rdbuf(sink.rdbuf()); }

    ~Silence() { cerr.rdbuf(old); }
};

int main() {
    vf::rule("A case is a distinct network (or history of saves) whose every copy was loaded and compared.");
    vf::section("roundtrip", 500, 15000, [] {
        auto &g = rng();
        auto s = anyNet(vf::st().index % 3 == 0);
        string dir = vf::freshDir("m");
        vf::probe("build");
        auto nn = vf::build(s, "net", dir);
        bool trained = g.chance(0.3);
        auto p = vf::randParams(s, vf::readParams(s, nn, dir + "/k"));
        vf::writeParams(p, nn, dir + "/k");
        vector<vf::Record> rs;
        for (int i = 0; i < 3; i++) rs.push_back(vf::randRecord(s));
        if (trained) {
            nn->setExitStrategy(vf::epochs(2));
            vf::probe("train");
            nn->train(vf::dataset(rs), (int) g.range(1, 3), g.chance(0.5) ? best : last);
        }
        p = vf::readParams(s, nn, dir + "/k");
        auto want = predictions(nn, rs);
        vf::probe("save");
        int way = (int) g.range(0, 2);
        string path = dir + "/net", config;
        if (way == 0) nn->saveWithOverwrite();
        else if (way == 1) nn->saveWithoutOverwrite();
        else {
            path = dir + "/sub/dir/net";
            nn->saveAs(path, g.chance(0.5));
        }
        config = vf::readFile(path + "/model.config");
        vf::probe("load");
        auto again = loadNeuralNetworkForTraining("net", filesystem::path(path).parent_path().generic_string());
        again->setSilentMode(true);
        string bad;
        vf::probe("predict-loaded");
        try {
            bad = diff(want, predictions(again, rs));
        } catch (exception &e) {
            bad = string("prediction failed: ") + e.what();
        }
        vf::check(bad.empty(), "loaded-prediction", bad + " after loading " + s.str());
        vf::check(diff(want, predictions(nn, rs)).empty(), "saving-changes-model", "saving changed the predictions of " + s.str());
        string c2 = configOf(again, dir + "/copy/net");
        vf::check(c2 == config, "loaded-settings", "saved again, the settings differ: '" + c2 + "' instead of '" + config + "'");
        bad = diff(p, vf::readParams(s, again, dir + "/k2"));
        vf::check(bad.empty(), "loaded-parameters", bad + " after loading " + s.str());
        bool drop = false;
        for (auto &v: s.v) drop |= v.type == LayerType::dropout;
        if (!trained && !drop) { // a step taken by the copy is the step taken by the original
            vector<vf::Record> one{rs[0]};
            bool lowBits = false;
            for (auto &v: s.v) lowBits |= v.bits != 32;
            for (auto &n: {nn, again}) {
                n->setExitStrategy(vf::epochs(2));
                n->train(vf::dataset(one), 1, last);
            }
            // (the settings may have been rounded by the decimal notation of the file)
            bad = diff(vf::readParams(s, nn, dir + "/k"), vf::readParams(s, again, dir + "/k2"), lowBits ? 2e-2 : 2e-5);
            vf::check(bad.empty(), "loaded-training", bad + " after the same two steps of the original and the loaded " + s.str());
            vf::count("training_compared");
        }
        size_t outs = 0, heads = 0;
        for (auto &v: s.v) {
            vf::count("layer:" + nodeTypeToString(v.type));
            outs += v.output;
            heads += v.in.empty();
            if (v.clip) vf::count("clipping");
            if (v.bits == 8) vf::count("bits8");
            if (v.bits == 16) vf::count("bits16");
            if (v.type == concatenate && !is_sorted(v.in.begin(), v.in.end())) vf::count("joined_in_another_order");
        }
        vf::count("optimizer:" + optimizerTypeToString(s.opt));
        vf::count("loss:" + lossTypeToString(s.loss));
        if (outs > 1) vf::count("several_outputs");
        if (heads > 1) vf::count("several_inputs");
        vf::nontrivial(s.str());
        vf::sample(s.str());
    });
    vf::section("history", 240, 4000, [] {
        auto &g = rng();
        string dir = vf::freshDir("m");
        Silence quiet;
        struct M {
            vf::NetSpec s;
            Net nn;
            string config;
            map<string, vf::Params> labels; // what loadKnowledge should bring back
        };
        vector<M> ms(2);
        for (auto &m: ms) {
            m.s = anyNet(false);
            m.nn = vf::build(m.s, "net", dir + "/repo");
            auto p = vf::randParams(m.s, vf::readParams(m.s, m.nn, dir + "/k"));
            vf::writeParams(p, m.nn, dir + "/k");
            m.config = configOf(m.nn, dir + "/c/net");
        }
        filesystem::create_directories(dir + "/repo");
        struct Copy {
            int model;
            vf::Params p;
        };
        map<string, Copy> copies; // folder under repo -> what it holds
        map<string, vf::Params> labels; // knowledge saved under a label of repo/net, for the model there
        ostringstream trail;
        auto now = [&](M &m) { return vf::readParams(m.s, m.nn, dir + "/k"); };
        auto verify = [&](const string &folder, const string &op) {
            auto &c = copies[folder];
            auto &m = ms[c.model];
            string bad;
            try {
                auto l = loadNeuralNetworkForTraining("net", filesystem::path(dir + "/repo/" + folder).parent_path().generic_string());
                bad = diff(c.p, vf::readParams(m.s, l, dir + "/k3"));
            } catch (exception &e) {
                bad = string("loading failed: ") + e.what();
            }
            vf::check(bad.empty(), "history-load", folder + ": " + bad + " after" + trail.str());
            (void) op;
        };
        for (long long step = g.range(3, 10); step > 0; step--) {
            int which = (int) g.range(0, 1);
            int op = (int) g.range(0, 7);
            if (op == 7) op = labels.empty() ? 4 : 5;
            if ((op == 4 || op == 5) && copies.count("net")) which = copies["net"].model;
            auto &m = ms[which];
            Files before = snapshot(dir + "/repo");
            string name;
            if (op == 0) {
                m.nn->setExitStrategy(vf::epochs(1));
                vector<vf::Record> one{vf::randRecord(m.s)};
                bool keep = g.chance(0.5);
                trail << " train" << which;
                vf::probe("history-train");
                m.nn->train(vf::dataset(one), 1, keep ? best : last);
                auto after = snapshot(dir + "/repo");
                before.erase("net");
                after.erase("net"); // an empty folder may be made for the checkpoint
                vf::check(after == before, "training-touches-saved", "training changed files under the model folder after" + trail.str());
            } else if (op <= 2) { // save over
                string folder = op == 1 ? "net" : g.pick(vector<string>{"a/net", "b/net"});
                trail << " save" << which << "->" << folder;
                auto p = now(m);
                vf::probe("history-save");
                if (op == 1) m.nn->saveWithOverwrite(); else m.nn->saveAs(dir + "/repo/" + folder, true);
                auto bad = expectedFiles(m.s, snapshot(dir + "/repo/" + folder), m.config);
                vf::check(bad.empty(), "history-save", folder + ": " + bad + " after" + trail.str());
                copies[folder] = {which, p};
                if (folder == "net") labels.clear();
                Files after = snapshot(dir + "/repo");
                for (auto &e: before) if (e.first.rfind(folder, 0) != 0) vf::check(after[e.first] == e.second, "save-touches-others", e.first + " was changed by" + trail.str());
                vf::count("saved_over");
                verify(folder, "save");
            } else if (op == 3) { // save beside
                string folder = g.pick(vector<string>{"net", "a/net"});
                bool there = filesystem::exists(dir + "/repo/" + folder) && !filesystem::is_empty(dir + "/repo/" + folder);
                trail << " keep" << which << "->" << folder;
                auto p = now(m);
                this_thread::sleep_for(chrono::milliseconds(2)); // the new folder is named after the millisecond
                vf::probe("history-save-beside");
                if (folder == "net") m.nn->saveWithoutOverwrite(); else m.nn->saveAs(dir + "/repo/" + folder, false);
                Files after = snapshot(dir + "/repo");
                for (auto &e: before) vf::check(after.count(e.first) && after[e.first] == e.second, "kept-copy-changed", e.first + " was changed by" + trail.str());
                string made = folder;
                if (there) {
                    made = "";
                    for (auto &e: after) if (!before.count(e.first) && e.second == "<dir>" && e.first.rfind(folder + "_", 0) == 0 && e.first.find('/', folder.size()) == string::npos) made = e.first;
                    if (!vf::check(!made.empty(), "kept-copy-nowhere", "no new folder was made by" + trail.str())) return;
                    for (auto &e: after) if (!before.count(e.first)) vf::check(e.first == made || e.first.rfind(made + "/", 0) == 0, "kept-copy-mixture", e.first + " was added by" + trail.str());
                    vf::count("kept_beside");
                }
                auto bad = expectedFiles(m.s, snapshot(dir + "/repo/" + made), m.config);
                vf::check(bad.empty(), "history-save-beside", made + ": " + bad + " after" + trail.str());
                if (there) { // moved to where it can be loaded
                    filesystem::create_directories(dir + "/repo/moved");
                    filesystem::remove_all(dir + "/repo/moved/net");
                    filesystem::rename(dir + "/repo/" + made, dir + "/repo/moved/net");
                    made = "moved/net";
                }
                copies[made] = {which, p};
                if (bad.empty()) verify(made, "keep");
            } else if (op == 4) { // knowledge under a label
                if (!copies.count("net") || copies["net"].model != which) continue;
                string label = g.pick(vector<string>{"one", "two", "default"});
                bool over = g.chance(0.6), there = filesystem::exists(dir + "/repo/net/" + label) && !filesystem::is_empty(dir + "/repo/net/" + label);
                trail << " know" << which << "->" << label << (over ? "!" : "?");
                auto p = now(m);
                this_thread::sleep_for(chrono::milliseconds(2));
                vf::probe("history-knowledge");
                if (over) m.nn->saveKnowledgeWithOverwrite(label); else m.nn->saveKnowledgeWithoutOverwrite(label);
                if (over || !there) {
                    if (label == "default") copies["net"].p = p; else labels[label] = p;
                } else {
                    Files after = snapshot(dir + "/repo");
                    for (auto &e: before) vf::check(after.count(e.first) && after[e.first] == e.second, "kept-knowledge-changed", e.first + " was changed by" + trail.str());
                    for (auto &e: after) if (!before.count(e.first) && e.second == "<dir>" && e.first.rfind("net/" + label + "_", 0) == 0) name = e.first.substr(4);
                    if (!vf::check(!name.empty(), "kept-knowledge-nowhere", "no new knowledge was made by" + trail.str())) return;
                    labels[name] = p;
                    // keep the folder in the form expectedFiles knows about
                }
                vf::count("knowledge_saved");
                verify("net", "know");
            } else if (op == 5) { // bring knowledge back
                if (labels.empty() || !copies.count("net") || copies["net"].model != which) continue;
                auto it = labels.begin();
                advance(it, g.range(0, (long long) labels.size() - 1));
                trail << " recall" << which << "<-" << it->first;
                vf::probe("history-recall");
                m.nn->loadKnowledge(it->first);
                auto bad = diff(it->second, now(m));
                vf::check(bad.empty(), "recalled-knowledge", bad + " after" + trail.str());
                vf::count("knowledge_recalled");
                if (g.chance(0.3)) {
                    trail << " forget" << which << "->" << it->first;
                    m.nn->removeKnowledge(it->first);
                    vf::check(!filesystem::exists(dir + "/repo/net/" + it->first), "removed-knowledge", it->first + " is still there after" + trail.str());
                    labels.erase(it);
                }
            } else { // go on with a loaded copy
                if (copies.empty()) continue;
                auto it = copies.begin();
                advance(it, g.range(0, (long long) copies.size() - 1));
                if (copies.count("net") && g.chance(0.6)) it = copies.find("net");
                if (it->first != "net") {
                    verify(it->first, "load");
                    continue;
                }
                trail << " reload<-" << it->first;
                vf::probe("history-reload");
                auto &mm = ms[it->second.model];
                mm.nn = loadNeuralNetworkForTraining("net", dir + "/repo");
                mm.nn->setSilentMode(true);
                auto bad = diff(it->second.p, now(mm));
                vf::check(bad.empty(), "history-load", "net: " + bad + " after" + trail.str());
                vf::count("reloaded");
            }
        }
        for (auto &c: copies) verify(c.first, "end");
        vf::nontrivial(trail.str());
        vf::sample(trail.str());
    });
    vf::section("damaged", 300, 10000, [] { // an incomplete or damaged folder is refused (or, if still readable, loads), never a crash
        auto &g = rng();
        string dir = vf::freshDir("m");
        auto s = anyNet(g.chance(0.3));
        auto nn = vf::build(s, "net", dir);
        nn->saveWithOverwrite();
        string config = dir + "/net/model.config", text = vf::readFile(config), what;
        vector<string> lines;
        {
            istringstream in(text);
            for (string l; getline(in, l);) lines.push_back(l);
        }
        bool mustFail = false;
        auto join = [&] {
            string t;
            for (auto &l: lines) t += l + "\n";
            return t;
        };
        auto names = vf::paramNames(s);
        int kind = (int) g.range(0, 7);
        if (kind == 0) {
            what = "no folder";
            filesystem::remove_all(dir + "/net");
            mustFail = true;
        } else if (kind == 1) {
            what = "no config";
            filesystem::remove(config);
            mustFail = true;
        } else if (kind == 2) {
            auto n = g.pick(names);
            what = "no " + n;
            filesystem::remove(dir + "/net/default/" + n + ".tensor");
            mustFail = true;
        } else if (kind == 3) {
            auto n = g.pick(names);
            string f = dir + "/net/default/" + n + ".tensor", b = vf::readFile(f);
            size_t k = g.range(0, (long long) b.size() - 1);
            vf::writeFile(f, b.substr(0, k));
            what = n + " cut to " + to_string(k);
            mustFail = true;
        } else if (kind == 4) {
            size_t k = g.range(0, (long long) text.size() - 1);
            vf::writeFile(config, text.substr(0, k));
            what = "config cut to " + to_string(k);
            mustFail = count(text.begin(), text.begin() + (long) k, '\n') < 4;
        } else if (kind == 5) {
            size_t k = g.range(0, (long long) lines.size() - 1);
            what = "without line " + to_string(k + 1) + " '" + lines[k] + "'";
            mustFail = k < 4;
            lines.erase(lines.begin() + (long) k);
            vf::writeFile(config, join());
        } else if (kind == 6) {
            size_t k = g.range(0, (long long) lines.size() - 1);
            vector<string> f;
            string cur;
            for (char c: lines[k]) if (c == ':') f.push_back(cur), cur.clear(); else cur += c;
            f.push_back(cur);
            size_t at = g.range(0, (long long) f.size() - 1);
            f[at] = g.pick(vector<string>{"", "abc", "\"", "true", "0", "x1", "\\"});
            string l;
            for (size_t i = 0; i < f.size(); i++) l += (i ? ":" : "") + f[i];
            what = "line " + to_string(k + 1) + " is '" + l + "' instead of '" + lines[k] + "'";
            lines[k] = l;
            vf::writeFile(config, join());
        } else {
            what = "lines shuffled";
            vector<string> rest(lines.begin() + 4, lines.end());
            g.shuffle(rest);
            lines.resize(4);
            lines.insert(lines.end(), rest.begin(), rest.end());
            vf::writeFile(config, join());
        }
        vf::probe("load-damaged");
        bool threw = false;
        try {
            auto l = loadNeuralNetworkForTraining("net", dir);
            auto rec = vf::randRecord(s);
            vector<shared_ptr<BaseTensor>> in;
            for (auto &x: rec.given) in.push_back(vf::toT(x));
            if (kind == 7) {
                vf::probe("predict-damaged");
                auto o = predictions(l, {rec});
                vf::check(diff(predictions(nn, {rec}), o).empty(), "line-order", "the order of the lines of the configuration changed the model " + s.str());
            }
        } catch (exception &) {
            threw = true;
        }
        vf::check(threw || !mustFail, "damaged-accepted", "a model with " + what + " was loaded, " + s.str());
        if (kind == 7) vf::check(!threw, "line-order", "with its lines in another order the model does not load, " + s.str());
        vf::count(threw ? "refused" : "still_loads");
        vf::nontrivial(what + s.str());
        vf::sample(what);
    });
    for (auto c: {"layer:full", "layer:convolution2dValid", "layer:concatenate", "layer:normalize", "layer:flatten", "layer:dropout", "clipping", "bits8", "bits16",
                  "several_outputs", "several_inputs", "training_compared", "joined_in_another_order", "saved_over", "kept_beside", "knowledge_saved", "knowledge_recalled",
                  "reloaded", "refused", "still_loads"})
        vf::require(c, 8);
    for (auto t: {sgd, adam, sgdm, adam_with_decaying_momentum, sgdm_with_decaying_momentum}) vf::require("optimizer:" + optimizerTypeToString(t), 20);
    for (auto l: {mse, mae, smae, categoricalCrossEntropy, binaryCrossEntropy}) vf::require("loss:" + lossTypeToString(l), 20);
    return vf::main();
}
