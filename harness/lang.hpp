// Scripts: worlds to run them in, statements with their known outcomes, and the ways to run them.
#pragma once
#include <bits/stdc++.h>
#include "lang/interpreter.hpp"
#define main happyml_main
#include "main.cpp"
#undef main
#include "common.hpp"
#include "ds.hpp"

namespace lang {
    using namespace happyml;
    using vf::rng;
    using std::string;
    using std::to_string;
    using std::vector;
    namespace fs = std::filesystem;

    // a folder with sources, a repository and a current directory next to it
    struct World {
        string dir;

        explicit World(const string &name) : dir(vf::freshDir(name)) {
            fs::create_directories(dir + "/cwd");
            fs::create_directories(dir + "/data");
        }

        World(const string &name, const World &original) : dir(vf::freshDir(name)) {
            fs::copy(original.dir, dir, fs::copy_options::recursive | fs::copy_options::overwrite_existing);
        }

        string set(const string &name) const { return dir + "/happyml_repo/datasets/" + name + "/dataset.bin"; }

        std::map<string, string> tree() const {
            auto t = ds::tree(dir);
            for (auto i = t.begin(); i != t.end();) i = i->first.find("/logs/") != string::npos ? t.erase(i) : std::next(i);
            return t;
        }
    };

    struct Ran {
        string out, err;
        bool done = false, ok = false; // ended as it should: no crash, no exception
        string how;
    };

    // runs something that returns whether the session is over
    inline Ran run(const World &w, const std::function<bool()> &what, const string &in = "", int timeout = 60) {
        string mark = w.dir + "/../done." + to_string(getpid());
        fs::remove(mark);
        auto r = vf::isolated([&] {
            if (chdir((w.dir + "/cwd").c_str()) != 0) _exit(3);
            bool done;
            try {
                done = what();
            } catch (std::exception &e) {
                std::cout.flush();
                std::cerr << "uncaught: " << e.what() << std::endl;
                _exit(77);
            }
            vf::writeFile(mark, done ? "1" : "0");
            return string();
        }, timeout, in, true);
        Ran x;
        x.out = r.out;
        x.err = r.err;
        x.ok = r.exited && r.code == 0;
        x.done = vf::exists(mark) && vf::readFile(mark) == "1";
        x.how = r.describe();
        fs::remove(mark);
        return x;
    }

    inline Ran script(const World &w, const string &text) {
        return run(w, [&] {
            InterpreterSession session(initializeHappymlParser());
            return session.interpretCommands(text, "script");
        });
    }

    // several scripts in one session
    inline Ran scripts(const World &w, const vector<string> &texts) {
        return run(w, [&] {
            InterpreterSession session(initializeHappymlParser());
            for (auto &t: texts) if (session.interpretCommands(t, "script")) return true;
            return false;
        });
    }

    inline Ran interactive(const World &w, const string &in) {
        return run(w, [&] {
            InterpreterSession session(initializeHappymlParser());
            session.interactiveInterpret();
            return false;
        }, in);
    }

    // the program itself, with files
    inline Ran program(const World &w, const vector<string> &files, int &code) {
        auto c = std::make_shared<int>(0);
        string mark = w.dir + "/../code." + to_string(getpid());
        fs::remove(mark);
        auto r = run(w, [&] {
            vector<string> a{"happyml"};
            a.insert(a.end(), files.begin(), files.end());
            vector<char *> v;
            for (auto &s: a) v.push_back(s.data());
            vf::writeFile(mark, to_string(happyml_main((int) v.size(), v.data())));
            return false;
        });
        code = vf::exists(mark) ? atoi(vf::readFile(mark).c_str()) : -1;
        fs::remove(mark);
        return r;
    }

    // a small source that can be stored, and its declaration
    struct Set {
        string name, file;
        ds::Source source;
    };

    inline const vector<string> &names() {
        static const vector<string> n{"alpha", "Beta", "gamma_1", "d", "Titanic", "setting", "attack", "with_x", "prints", "total", "givens", "labels", "task1", "x9_", "toy", "testing", "helpers"};
        return n;
    }

    // columns whose names are words that can't be mistaken
    inline ds::Source source(size_t records = 8, bool for_task = false) {
        auto s = ds::make(records, true, for_task, 1);
        while (s.records.empty()) s = ds::make(records, true, for_task, 1);
        size_t k = 0;
        auto &g = rng();
        for (auto &c: s.cols) c.name = (g.chance(0.5) ? "Col" : "col_") + to_string(k++);
        return s;
    }

    // a model folder that can be executed: untrained, so that its answers depend on all of its inputs
    inline void task(const World &w, const string &name, const string &set) {
        string folder = w.dir + "/happyml_repo/tasks/";
        fs::create_directories(folder);
        BinaryDatasetReader reader(w.set(set));
        auto builder = neuralNetworkBuilder(sgd, name, folder);
        builder->setLearningRate(0.001f);
        vector<vector<size_t>> shapes;
        for (size_t i = 0; i < reader.get_given_column_count(); i++) {
            auto m = reader.get_given_metadata(i);
            shapes.push_back({m->rows, m->columns, m->channels});
        }
        auto middle = shapes.size() == 1 ? builder->addInputLayer(shapes[0], 6, LayerType::full, ActivationType::tanhDefault)
                                         : builder->add_concatenated_input_layer(shapes)->addLayer(6, LayerType::full, ActivationType::tanhDefault);
        for (size_t i = 0; i < reader.get_expected_column_count(); i++) {
            auto m = reader.get_expected_metadata(i);
            middle->addOutputLayer({m->rows, m->columns, m->channels}, ActivationType::sigmoid);
        }
        auto nn = builder->build();
        nn->saveWithOverwrite();
        BinaryDatasetWriter writer(folder + name + "/dataset.bin", reader.get_given_metadata(), reader.get_expected_metadata());
        writer.close();
        reader.close();
    }

    inline string quote(const string &s, char q) {
        string r(1, q);
        for (char c: s) {
            if (c == q) r += '\\';
            r += c;
        }
        return r + q;
    }

    // the inputs of a record, as text of a script
    inline vector<std::pair<string, vector<string>>> inputs(const ds::Source &s, const ds::Record &r) {
        vector<std::pair<string, vector<string>>> in;
        for (auto c: s.of("given")) {
            vector<string> v;
            for (size_t i = 0; i < c->width(); i++) v.push_back(r[c->start + i]);
            in.push_back({c->name, v});
        }
        return in;
    }
}

// Scripts as words, so that they can be spelled in many ways.
namespace lang {
    struct Word {
        string text;
        enum Kind { keyword, name, literal, sign } kind = keyword;
        bool complete = false; // the statement may end here
    };

    struct Spoken {
        vector<Word> words;
        std::function<std::shared_ptr<ExecutableStatement>()> meaning; // the same, without a script
        string kind;
    };

    struct Speaker {
        const World &w;
        string base;                // a dataset that exists
        ds::Source base_source;
        vector<Set> sets;           // that can be made
        bool exits = true;

        static Word k(const string &s) { return {s, Word::keyword}; }
        static Word n(const string &s) { return {s, Word::name}; }
        static Word l(const string &s) { return {s, Word::literal}; }
        static Word p(const string &s) { return {s, Word::sign}; }

        Spoken create(const string &name, const ds::Source &s, const string &location) const {
            Spoken r;
            auto &v = r.words;
            v = {k("create"), k("dataset"), n(name)};
            vector<std::shared_ptr<ColumnGroup>> groups;
            auto header = [&] {
                v.push_back(k("with"));
                v.push_back(k("header"));
            };
            size_t when = (size_t) rng().range(0, (long long) s.cols.size());
            for (size_t i = 0; i <= s.cols.size(); i++) {
                if (s.header && i == when) header();
                if (i == s.cols.size()) break;
                auto &c = s.cols[i];
                for (auto &x: {k("with"), k(c.use), k(c.type), n(c.name)}) v.push_back(x);
                if (c.width() > 1 || rng().chance(0.3)) {
                    bool two = c.channels == 1 && rng().chance(0.5), one = two && c.rows == 1 && rng().chance(0.5);
                    v.push_back(p("("));
                    if (!one) for (auto &x: {l(to_string(c.rows)), p(",")}) v.push_back(x);
                    v.push_back(l(to_string(c.columns)));
                    if (!two) for (auto &x: {p(","), l(to_string(c.channels))}) v.push_back(x);
                    v.push_back(p(")"));
                }
                v.push_back(k("at"));
                v.push_back(l(to_string(c.start)));
                groups.push_back(std::make_shared<ColumnGroup>(i + 1, c.start, c.width(), c.use, c.type, c.name, c.rows, c.columns, c.channels));
            }
            v.push_back(k("using"));
            v.push_back(l(location));
            v.back().complete = true;
            bool header_ = s.header;
            r.meaning = [=] { return std::make_shared<CreateDatasetStatement>(name, location, header_, groups); };
            r.kind = "create dataset";
            return r;
        }

        static bool plain_word(const string &s) {
            static const std::set<string> keywords{"copy", "create", "delete", "describe", "execute", "exit", "help", "list", "move", "print", "refine", "set", "accuracy", "dataset", "datasets", "future", "image",
                                                   "input", "label", "memory", "number", "speed", "task", "tasks", "text", "at", "expected", "given", "goal", "header", "limit", "pretty", "raw", "starting", "test",
                                                   "to", "using", "with"};
            if (s.empty() || !isalpha((unsigned char) s[0])) return false;
            for (char c: s) if (!isalnum((unsigned char) c) && c != '_') return false;
            string lower = s;
            for (auto &c: lower) c = (char) tolower(c);
            return !keywords.count(lower);
        }

        // a value, in one of the ways to write it
        static Word value(const string &s, HappyMLVariant &v) {
            auto &g = rng();
            static const std::regex number("[0-9]+(\\.[0-9]+)?");
            if (s.size() < 8 && std::regex_match(s, number) && g.chance(0.6)) {
                v = std::stof(s);
                return l(s);
            }
            v = s;
            if (plain_word(s) && g.chance(0.5)) return n(s);
            return l(quote(s, g.chance(0.6) ? '"' : '\''));
        }

        Spoken execute() const {
            auto &g = rng();
            Spoken r;
            r.words = {k("execute"), k("task"), n("ready")};
            string label;
            if (g.chance(0.3)) for (auto &x: {k("with"), k("label"), n(label = g.pick(names()))}) r.words.push_back(x);
            r.words.push_back(k("using"));
            std::unordered_map<string, vector<HappyMLVariant>> in;
            string set;
            if (g.chance(0.25)) {
                set = base;
                r.words.push_back(k("dataset"));
                r.words.push_back(n(base));
            } else {
                r.words.push_back(k("input"));
                r.words.push_back(p("("));
                bool first = true;
                for (auto &[name, values]: inputs(base_source, g.pick(base_source.records))) {
                    if (!first) r.words.push_back(p(","));
                    first = false;
                    r.words.push_back(g.chance(0.5) ? n(name) : l(quote(name, g.chance(0.5) ? '"' : '\'')));
                    r.words.push_back(p(":"));
                    string lower = name;
                    for (auto &c: lower) c = (char) tolower(c);
                    bool list = values.size() > 1 || g.chance(0.3);
                    if (list) r.words.push_back(p("["));
                    for (size_t i = 0; i < values.size(); i++) {
                        if (i) r.words.push_back(p(","));
                        HappyMLVariant v;
                        r.words.push_back(value(values[i], v));
                        in[lower].push_back(v);
                    }
                    if (list) r.words.push_back(p("]"));
                }
                r.words.push_back(p(")"));
            }
            r.words.back().complete = true;
            r.meaning = [=] { return std::make_shared<ExecuteTaskStatement>("ready", label, set, in); };
            r.kind = "execute task";
            return r;
        }

        Spoken speak() const {
            auto &g = rng();
            Spoken r;
            switch (g.range(0, exits ? 10 : 9)) {
                case 0:
                case 1:
                case 2: {
                    auto &s = g.pick(sets);
                    return create(s.name, s.source, "file://../data/" + s.file);
                }
                case 3:
                case 4: {
                    bool raw = g.chance(0.5);
                    string name = g.chance(0.6) ? base : g.pick(sets).name;
                    int limit = -1;
                    r.words = {k("print"), k(raw ? "raw" : "pretty"), n(name)};
                    r.words.back().complete = true;
                    if (g.chance(0.6)) {
                        r.words.push_back(k("limit"));
                        r.words.push_back(l(to_string(limit = (int) g.range(0, 7))));
                        r.words.back().complete = true;
                    }
                    r.meaning = [=] { return std::make_shared<PrintStatement>(name, raw, limit); };
                    r.kind = "print";
                    return r;
                }
                case 5: {
                    r.words = {k("help")};
                    r.words.back().complete = true;
                    string about = g.pick(vector<string>{"", "dataset", "datasets", "task", "tasks", "future"});
                    if (!about.empty()) {
                        r.words.push_back(k(about));
                        r.words.back().complete = true;
                    }
                    r.meaning = [=] { return about.empty() ? std::make_shared<HelpStatement>() : std::make_shared<HelpStatement>(about); };
                    r.kind = "help";
                    return r;
                }
                case 6: { // which never gets to the training
                    string type = "label", name = g.chance(0.5) ? "ready" : g.pick(names()), goal = "accuracy", set = "broken", test;
                    r.words = {k("create"), k("task"), k(type), n(name)};
                    bool test_first = g.chance(0.5);
                    for (int i = 0; i < 2; i++)
                        if ((i == 0) == test_first) {
                            if (g.chance(0.5)) for (auto &x: {k("with"), k("test"), n(test = base)}) r.words.push_back(x);
                        } else if (g.chance(0.7)) for (auto &x: {k("with"), k("goal"), k(goal = g.pick(vector<string>{"speed", "accuracy", "memory"}))}) r.words.push_back(x);
                    for (auto &x: {k("using"), n(set)}) r.words.push_back(x);
                    r.words.back().complete = true;
                    r.meaning = [=] { return std::make_shared<CreateTaskStatement>(type, name, goal, set, test); };
                    r.kind = "create task";
                    return r;
                }
                case 10:
                    r.words = {k("exit")};
                    r.words.back().complete = true;
                    r.meaning = [] { return std::make_shared<ExitStatement>(); };
                    r.kind = "exit";
                    return r;
                default:
                    return execute();
            }
        }
    };

    inline bool wordy(char c) { return isalnum((unsigned char) c) || c == '_' || c == '.'; }

    // one way to write it: plain is the usual one
    inline string spell(const vector<Word> &words, bool plain, bool last = false) {
        auto &g = rng();
        string r;
        auto comment = [&] {
            return "#" + g.pick(vector<string>{"", " a comment", "exit", " \"", " it's", "\t# more", " print raw x", " with header # using", " \xc3\xa9\xff", "\\", " (", " create dataset"}) + "\n";
        };
        auto blank = [&](bool required) {
            if (plain) return string(required ? " " : "");
            string b;
            if (!required && g.chance(0.4)) return b;
            for (long long n = g.chance(0.7) ? 1 : g.range(1, 4); n > 0; n--)
                b += g.pick(vector<string>{" ", " ", "  ", "\t", "\n", "\r\n", "\n\n", " \t \n"});
            if (g.chance(0.15)) b += comment() + (g.chance(0.5) ? "  " : "");
            return b;
        };
        for (size_t i = 0; i < words.size(); i++) {
            string t = words[i].text;
            if (!plain && words[i].kind == Word::keyword)
                switch (g.range(0, 3)) {
                    case 0: for (auto &c: t) c = (char) toupper(c); break;
                    case 1: t[0] = (char) toupper(t[0]); break;
                    case 2: for (auto &c: t) if (g.chance(0.5)) c = (char) toupper(c); break;
                    default: break;
                }
            if (i) {
                // words need something between them
                bool required = wordy(r.back()) && wordy(t[0]);
                if (plain && !required) required = t[0] != ')' && t[0] != ',' && t[0] != ':' && t[0] != ']' && r.back() != '(' && r.back() != '[';
                if (words[i].text.find("://") != string::npos || words[i - 1].text.find("://") != string::npos) required = true;
                r += blank(required);
            }
            r += t;
        }
        if (plain) return r + "\n";
        if (last && g.chance(0.3)) return r + (g.chance(0.3) ? "# the end" : "");
        return r + (g.chance(0.3) ? comment() : g.pick(vector<string>{"\n", " ", "\r\n", "\t", "\n\n \n"}));
    }
}
