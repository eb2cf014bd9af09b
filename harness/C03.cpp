// C03: statements run in order, the first failure stops their script, and exit ends the session.
#include "lang.hpp"

using namespace happyml;
using vf::rng;
using lang::World;
using std::string;
using std::to_string;
using std::vector;

struct Statement {
    string text;
    enum Outcome { fine, fails, exits } outcome = fine;
    string creates; // a dataset
    string kind;
};

struct State {
    vector<lang::Set> sets; // that can be made
    std::set<string> made;
};

static Statement next(State &s) {
    auto &g = rng();
    Statement r;
    auto &any_set = g.pick(s.sets);
    vector<string> made(s.made.begin(), s.made.end());
    int kind = (int) g.range(0, 15);
    string missing = g.chance(0.5) ? "nowhere" : "no_such";
    switch (kind) {
        case 0:
        case 1:
        case 2: // a dataset, which may exist
            r.text = ds::statement(any_set.source, any_set.name, "file://../data/" + any_set.file);
            r.creates = any_set.name;
            r.kind = s.made.count(any_set.name) ? "create existing dataset" : "create dataset";
            s.made.insert(any_set.name);
            break;
        case 3: {
            r.text = ds::statement(any_set.source, "fresh" + to_string(g.range(0, 99)), g.pick(vector<string>{"file://../data/missing.csv", "https://x/y.csv", "file://../data/x.doc"}));
            r.outcome = Statement::fails;
            r.kind = "create dataset of nothing";
            break;
        }
        case 4:
        case 5:
        case 6:
            if (!made.empty()) {
                r.text = "print " + g.pick(vector<string>{"raw", "pretty"}) + " " + g.pick(made) + (g.chance(0.5) ? " limit " + to_string(g.range(0, 5)) : "");
                r.kind = "print";
                break;
            }
        case 7:
            r.text = "print " + g.pick(vector<string>{"raw ", "pretty "}) + missing;
            r.outcome = Statement::fails;
            r.kind = "print nothing";
            break;
        case 8:
        case 9:
            r.text = "help" + g.pick(vector<string>{"", " dataset", " task", " future"});
            r.kind = "help";
            break;
        case 10:
            r.text = "create task label " + missing + " using " + missing;
            r.outcome = Statement::fails;
            r.kind = "create task from nothing";
            break;
        case 11:
            r.text = "create task label ready using base";
            r.kind = "create existing task";
            break;
        case 12:
            r.text = "execute task ready using dataset base";
            r.kind = "execute task";
            break;
        case 13:
            r.text = g.chance(0.5) ? "execute task " + missing + " using dataset base" : "execute task ready using dataset " + missing;
            r.outcome = Statement::fails;
            r.kind = "execute nothing";
            break;
        case 14:
            r.text = g.chance(0.5) ? "execute task ready using input (nothing: 1)" : "execute task ready using input ()";
            r.outcome = Statement::fails;
            r.kind = "execute with wrong input";
            break;
        default:
            r.text = "exit";
            r.outcome = Statement::exits;
            r.kind = "exit";
    }
    return r;
}

// times differ from run to run
static string normal(const string &s) {
    static const std::regex time("[0-9.]+ (milliseconds|seconds|minutes|ms)");
    return std::regex_replace(s, time, "? $1");
}

int main() {
    vf::rule("A case is a distinct sequence of scripts run through one entry point, compared with its statements run one at a time.");
    // what greets at the prompt, and the prompt
    vf::section("sequence", 260, 6000, [] {
        auto &g = rng();
        World start("start");
        State s;
        lang::Set base;
        base.name = "base";
        base.file = "base.csv";
        base.source = lang::source(6, true);
        vf::writeFile(start.dir + "/data/base.csv", base.source.text);
        for (long long n = g.range(1, 3), i = 0; i < n; i++) {
            lang::Set x;
            x.name = lang::names()[(size_t) (g.range(0, 4) + 5 * i)];
            x.file = "f" + to_string(i) + ".csv";
            x.source = lang::source(6);
            vf::writeFile(start.dir + "/data/" + x.file, x.source.text);
            s.sets.push_back(x);
        }
        auto made = lang::script(start, ds::statement(base.source, "base", "file://../data/base.csv"));
        if (!vf::check(made.ok && vf::exists(start.set("base")), "setup", made.how + made.err)) return;
        s.made.insert("base");
        lang::task(start, "ready", "base");

        // what is to happen, one statement at a time, each in a session of its own
        enum { text, file, files, prompt } entry = (decltype(text)) g.range(0, 3);
        size_t last = SIZE_MAX, parts = entry == text || entry == file ? 1 : (size_t) g.range(1, 4);
        World one("one", start);
        vector<string> scripts;
        vector<vector<string>> lines;
        vector<string> outs;
        string err, story;
        bool over = false, last_failed = false;
        bool leave_early = g.chance(0.7);
        for (size_t p = 0; p < parts; p++) {
            string all, out;
            bool stopped = false;
            lines.emplace_back();
            if (over) stopped = true;
            for (long long n = vf::side(entry == prompt ? 0 : 1, entry == prompt ? 2 : 6, 30); n > 0; n--) {
                Statement x = next(s);
                if (leave_early && x.outcome != Statement::fine && n > 2 && g.chance(0.6)) x = next(s);
                all += x.text + g.pick(vector<string>{"\n", "\n", "\n\n", "\n# a comment\n", " "});
                lines.back().push_back(x.text);
                story += x.kind + "; ";
                if (stopped) {
                    if (!x.creates.empty() && !vf::exists(one.set(x.creates))) s.made.erase(x.creates);
                    vf::count("statements that must not run");
                    continue;
                }
                auto r = lang::script(one, x.text);
                if (!vf::check(r.ok, "statement:" + x.kind, x.text + ": " + r.how + " " + r.err)) return;
                if (!vf::check(r.done == (x.outcome == Statement::exits), "statement:done", x.text)) return;
                if (x.outcome != Statement::fails && !vf::check(r.err.empty(), "statement:failed:" + x.kind, x.text + ": " + r.err)) return;
                if (x.outcome == Statement::fails) vf::check(!r.err.empty(), "statement:unreported", x.text);
                if (!x.creates.empty()) vf::check(vf::exists(one.set(x.creates)), "statement:not created", x.text + r.out + r.err);
                out += r.out;
                err += r.err;
                vf::count("ran: " + x.kind);
                if (x.outcome != Statement::fine) stopped = true;
                if (x.outcome == Statement::exits) {
                    over = true;
                    last = p;
                }
                last_failed = x.outcome == Statement::fails;
            }
            story += "/ ";
            scripts.push_back(all);
            outs.push_back(out);
        }

        World all("all", start);
        lang::Ran r;
        string expected;
        vf::probe("run");
        last = std::min(last, parts - 1);
        if (entry == text) {
            expected = outs[0];
            r = lang::script(all, scripts[0]);
            vf::check(r.done == over, "done", story);
        } else if (entry == file || entry == files) {
            vector<string> names;
            size_t i = 0;
            for (auto &t: scripts) {
                names.push_back("../data/script" + to_string(i++) + ".happyml");
                for (auto *w: {&one, &all}) vf::writeFile(w->dir + "/cwd/" + names.back(), t);
            }
            int code;
            r = lang::program(all, names, code);
            // every file is announced before it is run, up to the one that exits
            for (i = 0; i <= last; i++) expected += to_string(i + 1) + " " + names[i] + "\n" + outs[i];
            vf::check(code == 0 || last_failed || !err.empty(), "code", story + to_string(code));
        } else {
            string in;
            for (auto &l: lines) {
                string line;
                for (auto &x: l) {
                    // lines are joined by a backslash, and words by nothing but blanks
                    string y = x;
                    if (g.chance(0.5)) for (size_t at = y.find(' '); at != string::npos; at = y.find(' ', at + 4)) if (g.chance(0.3)) y.replace(at, 1, g.pick(vector<string>{" \\\n", "\\\n", " \\\n  ", "\\ \n"}));
                    line += (line.empty() ? "" : g.pick(vector<string>{" ", " \\\n", "\\\n"})) + y;
                }
                if (g.chance(0.3)) line += " # a comment";
                if (g.chance(0.3)) line += g.chance(0.5) ? " " : "\t";
                if (g.chance(0.1)) line += "\r";
                in += line + "\n";
            }
            auto nothing = lang::interactive(all, "");
            vf::check(nothing.ok && nothing.out.size() > 2 && nothing.out.substr(nothing.out.size() - 2) == "> ", "prompt", nothing.out);
            r = lang::interactive(all, in);
            expected = nothing.out;
            for (size_t i = 0; i <= last; i++) expected += outs[i] + (over && i == last ? "" : "> ");
        }
        string what = story + "\n" + [&] { string t; for (auto &x: scripts) t += x + "\n--\n"; return t; }();
        if (!vf::check(r.ok, "crash", what + r.how + r.err)) return;
        vf::check(normal(r.out) == normal(expected), "output", what + "\nprinted:\n" + r.out + "\ninstead of:\n" + expected);
        vf::check(normal(r.err) == normal(err), "errors", what + "\nreported:\n" + r.err + "\ninstead of:\n" + err);
        string d = ds::difference(one.tree(), all.tree());
        vf::check(d.empty(), "effects", what + d);
        if (over) vf::count("exits");
        if (!err.empty()) vf::count("failures");
        vf::count(entry == text ? "texts" : entry == file ? "one file" : entry == files ? "several files" : "prompts");
        vf::nontrivial(what + to_string(entry));
    });

    vf::section("files", 40, 300, [] { // scripts that can't be read
        auto &g = rng();
        World w("w");
        vf::writeFile(w.dir + "/cwd/good", "help dataset\n");
        vf::writeFile(w.dir + "/cwd/empty", g.pick(vector<string>{"", "\n", "# nothing", "  \t\n\n"}));
        std::filesystem::create_directories(w.dir + "/cwd/folder");
        int code;
        string bad = g.pick(vector<string>{"missing", "folder", "no/such/file"});
        vf::probe("files");
        auto first = lang::program(w, {"good"}, code);
        vf::check(first.ok && code == 0 && first.err.empty() && first.out.find("create dataset") != string::npos, "files:good", first.out + first.how);
        auto r = lang::program(w, {"good", bad}, code);
        vf::check(r.ok && r.out.find(first.out) == 0, "files:before", r.out);
        vf::check(code != 0 || !r.err.empty(), "files:unreported", bad + ": " + r.out + r.err);
        r = lang::program(w, {"empty", "good"}, code);
        vf::check(r.ok && code == 0 && r.err.empty() && r.out.find("create dataset") != string::npos, "files:empty", r.out + r.err);
        r = lang::script(w, vf::readFile(w.dir + "/cwd/empty"));
        vf::check(r.ok && !r.done && r.out.empty() && r.err.empty(), "files:nothing", r.out + r.err);
        vf::count("unreadable");
        vf::nontrivial(bad);
    });

    vf::require("statements that must not run", 50);
    vf::require("exits", 20);
    vf::require("failures", 20);
    vf::require("texts", 20);
    vf::require("one file", 20);
    vf::require("several files", 20);
    vf::require("prompts", 20);
    vf::require("unreadable", 5);
    return vf::main();
}
