// C02: whatever is given to the interpreter either runs or is reported.
#include "lang.hpp"

using namespace happyml;
using vf::rng;
using lang::Word;
using lang::World;
using std::string;
using std::to_string;
using std::vector;

static World *start;
static lang::Speaker *speaker;

// a world with a dataset, a task, and sources of more datasets
static bool begin() {
    auto &g = rng();
    delete speaker;
    delete start;
    start = new World("start");
    auto base = lang::source(5, true);
    vf::writeFile(start->dir + "/data/base.csv", base.text);
    speaker = new lang::Speaker{*start, "base", base, {}};
    for (int i = 0; i < 2; i++) {
        lang::Set x;
        x.name = i ? "other" : g.pick(lang::names());
        x.file = "f" + to_string(i) + ".csv";
        x.source = lang::source(5);
        vf::writeFile(start->dir + "/data/" + x.file, x.source.text);
        speaker->sets.push_back(x);
    }
    auto made = lang::script(*start, ds::statement(base, "base", "file://../data/base.csv"));
    if (!vf::check(made.ok && vf::exists(start->set("base")), "setup", made.how + made.err)) return false;
    lang::task(*start, "ready", "base");
    std::filesystem::create_directories(start->dir + "/happyml_repo/datasets/broken");
    vf::writeFile(start->set("broken"), "nonsense");
    return true;
}

static string shown(const string &s) {
    string r;
    for (unsigned char c: s.substr(0, 600)) {
        char b[8];
        if (c == '\n' || (c >= 32 && c < 127)) r += (char) c;
        else snprintf(b, sizeof b, "\\x%02x", c), r += b;
    }
    return "[" + r + "]";
}

// Nothing may be trained, and nothing outside of the world be read or written, so scripts that might are only parsed.
static bool harmless(const string &text) {
    string t;
    bool comment = false;
    for (char c: text) {
        if (c == '#') comment = true;
        if (c == '\n') comment = false;
        if (!comment && !isspace((unsigned char) c)) t += (char) tolower((unsigned char) c);
    }
    static const std::regex training("createtask"), elsewhere(":/+");
    for (std::sregex_iterator i(t.begin(), t.end(), training), end; i != end; ++i)
        if (t.find("broken", (size_t) i->position()) == string::npos) return false;
    for (std::sregex_iterator i(t.begin(), t.end(), elsewhere), end; i != end; ++i) {
        string rest = t.substr((size_t) i->position() + (size_t) i->length(), 200);
        if (i->length() != 3) return false;
        if (rest.substr(0, 8) != "../data/") return false;
        if (rest.find("..", 8) < rest.find("create", 8)) return false;
    }
    return true;
}

static bool parses(const string &text) {
    auto r = vf::isolated([&] {
        try {
            return string(initializeHappymlParser()->parse(text, "s")->isSuccessful() ? "1" : "0");
        } catch (std::exception &e) {
            return string("uncaught ") + e.what();
        }
    }, 60);
    vf::check(r.exited && r.code == 0 && (r.out == "1" || r.out == "0"), "parse", shown(text) + ": " + r.out + " " + r.describe() + r.err);
    return r.out == "1";
}

static const string &after() {
    static const string t = "help dataset\nprint pretty base limit 2\nexecute task ready using dataset base\n";
    return t;
}

// what a session that begins now answers
static string answer(const World &w) {
    auto r = lang::script(w, after());
    vf::check(r.ok && r.err.empty() && !r.out.empty(), "after:fresh", r.how + r.err);
    return r.out;
}

static void judge(const string &text, const string &key, int must) { // must: 1 run, 0 be rejected, -1 either
    vf::probe(key.c_str());
    bool good = parses(text);
    if (must == 0) vf::check(!good, key + ":accepted", shown(text));
    if (must == 1 && !vf::check(good, key + ":rejected", shown(text))) return;
    vf::count(good ? "accepted" : "rejected");
    if (!harmless(text)) {
        vf::count("only parsed");
        vf::nontrivial(text);
        return;
    }
    World w("w", *start);
    auto before = w.tree();
    auto r = lang::script(w, text);
    if (!vf::check(r.ok, key + ":crash", shown(text) + ": " + r.how + " " + r.err.substr(0, 3000))) return;
    auto later = w.tree();
    if (!good) {
        vf::check(!r.err.empty(), key + ":unreported", shown(text));
        vf::check(r.out.empty(), key + ":output", shown(text) + " printed " + shown(r.out));
        vf::check(!r.done, key + ":exit", shown(text));
        string d = ds::difference(before, later);
        vf::check(d.empty(), key + ":effect", shown(text) + d);
    }
    if (r.done) {
        vf::count("exited");
        return;
    }
    // the session goes on as a new one would
    string fresh = answer(w);
    World again("again", *start);
    auto both = lang::scripts(again, {text, after()});
    if (!vf::check(both.ok, key + ":after crash", shown(text) + both.how)) return;
    vf::check(both.out == r.out + fresh && both.err == r.err, key + ":after", shown(text) + " then printed " + shown(both.out) + " instead of " + shown(r.out + fresh) + " and reported " + shown(both.err));
    vf::check(ds::difference(again.tree(), w.tree()).empty(), key + ":after effect", shown(text));
    vf::count("sessions that went on");
    vf::nontrivial(text);
}

static vector<Word> speak(size_t from, size_t to) {
    vector<Word> v;
    for (long long n = rng().range((long long) from, (long long) to); n > 0; n--) {
        auto s = speaker->speak().words;
        v.insert(v.end(), s.begin(), s.end());
    }
    return v;
}

static string bytes(size_t n) {
    auto &g = rng();
    string r;
    int kind = (int) g.range(0, 3);
    for (size_t i = 0; i < n; i++)
        switch (kind) {
            case 0: r += (char) g.range(0, 255); break;
            case 1: r += (char) g.range(32, 126); break;
            case 2: r += g.pick(vector<char>{'"', '\'', '\\', '#', '\n', 'a', ' ', '(', ')', '[', ']', ':', ',', '.', '0', '/', '_', '\0', '\x80', '\xff'}); break;
            default: r += g.chance(0.1) ? (char) g.range(0, 255) : (char) g.range(97, 122);
        }
    return r;
}

int main() {
    vf::rule("A case is a distinct text given to the interpreter.");

    vf::section("mutant", 160, 5000, [] {
        auto &g = rng();
        if (vf::st().index % 4 == 0 || !start) if (!begin()) return;
        auto v = speak(1, 4);
        auto any_word = [&] {
            switch (g.range(0, 4)) {
                case 0: return Word{g.pick(vector<string>{"with", "given", "expected", "at", "using", "(", ")", ",", "[", "]", ":", "limit", "raw", "create", "dataset", "print", "execute", "input", "help", "exit", "label", "text", "copy", "to", "=", "%", "/", "\\", "_", "-", "*", "\"", "'"})};
                case 1: return Word{g.pick(vector<string>{"0", "1", "9", "1.5", ".", "99999999999999999999", "2147483648", "4294967296", "1e5", "00", "1..2", "3000000000", "100000", "18446744073709551615"})};
                case 2: return g.pick(v);
                case 3: return Word{lang::quote(bytes((size_t) g.range(0, 6)), '"')};
                default: return Word{bytes((size_t) g.range(1, 5))};
            }
        };
        for (long long n = g.range(1, 3); n > 0; n--) {
            size_t at = (size_t) g.range(0, (long long) v.size() - 1);
            switch (g.range(0, 5)) {
                case 0: if (v.size() > 1) v.erase(v.begin() + (long) at); break;
                case 1: v[at] = any_word(); break;
                case 2: v.insert(v.begin() + (long) at, any_word()); break;
                case 3: std::swap(v[at], g.pick(v).text.empty() ? v[at] : v[(size_t) g.range(0, (long long) v.size() - 1)]); break;
                case 4: v.insert(v.begin() + (long) at, v[at]); break;
                default: v.resize(at + 1); break;
            }
        }
        string text;
        for (auto &x: v) text += x.text + (g.chance(0.9) ? " " : g.pick(vector<string>{"", "\n", "\t"}));
        if (g.chance(0.3)) {
            size_t at = (size_t) g.range(0, (long long) text.size());
            if (g.chance(0.5)) text.resize(at);
            else text.insert(at, bytes((size_t) g.range(1, 3)));
        }
        judge(text, "mutant", -1);
    });

    vf::section("bytes", 120, 4000, [] {
        auto &g = rng();
        if (!start && !begin()) return;
        string text = bytes((size_t) g.range(0, g.chance(0.1) ? 3000 : 60));
        if (g.chance(0.3)) text = lang::spell(speak(1, 1), false) + text;
        judge(text, "bytes", -1);
    });

    vf::section("incomplete", 160, 5000, [] { // a script that lacks its end, after ones that are fine
        auto &g = rng();
        if (vf::st().index % 4 == 0 || !start) if (!begin()) return;
        string text;
        for (long long n = g.range(0, 2); n > 0; n--) {
            auto s = speaker->speak().words;
            text += lang::spell(s, g.chance(0.5));
            text += "\n";
        }
        auto v = speaker->speak().words;
        size_t keep = (size_t) g.range(1, (long long) v.size());
        bool fine = v[keep - 1].complete;
        v.resize(keep);
        string last = lang::spell(v, g.chance(0.5), true);
        judge(text + last, fine ? "complete" : "incomplete", fine ? 1 : 0);
        vf::count(fine ? "complete scripts" : "incomplete scripts");
    });

    vf::section("wrong", 160, 4000, [] { // scripts with one thing wrong with them
        auto &g = rng();
        if (vf::st().index % 4 == 0 || !start) if (!begin()) return;
        static const vector<string> bad{
                "create dataset", "create dataset new_one", "create", "create model x", "create dataset new_one with", "create dataset new_one using", "create dataset new_one using file",
                "create dataset new_one using file://", "create dataset 5 using file://../data/f0.csv", "create dataset \"x\" using file://../data/f0.csv",
                "create dataset new_one with given number a using file://../data/f0.csv", "create dataset new_one with given number a at using file://../data/f0.csv",
                "create dataset new_one with given number a at x using file://../data/f0.csv", "create dataset new_one with given number a (1 at 0 using file://../data/f0.csv",
                "create dataset new_one with given number a (1,2 at 0 using file://../data/f0.csv", "create dataset new_one with given number a (1,2,3 at 0 using file://../data/f0.csv",
                "create dataset new_one with given number a (1,2,3,4) at 0 using file://../data/f0.csv", "create dataset new_one with given number a () at 0 using file://../data/f0.csv",
                "create dataset new_one with given number a (x) at 0 using file://../data/f0.csv", "create dataset new_one with given number a 1 at 0 using file://../data/f0.csv",
                "create dataset new_one with taken number a at 0 using file://../data/f0.csv", "create dataset new_one with given number a at 99999999999 using file://../data/f0.csv",
                "create dataset new_one with given number a at 0", "create dataset new_one with given number a at 0 file://../data/f0.csv", "create dataset new_one with given number a at 0 using file:../data/f0.csv",
                "create dataset new_one with given number a at -1 using file://../data/f0.csv", "create task", "create task label", "create task label new_one", "create task label new_one using",
                "create task label new_one with", "create task label new_one with goal", "create task label new_one with goal speed", "create task label new_one with test", "create task label new_one with speed using broken",
                "create task label new_one base", "execute", "execute ready", "execute task", "execute task ready", "execute task ready using", "execute task ready using dataset", "execute task ready using input",
                "execute task ready using input (", "execute task ready using input (a", "execute task ready using input (a:", "execute task ready using input (a:)", "execute task ready using input (a:1",
                "execute task ready using input (a:1,", "execute task ready using input (a:[1", "execute task ready using input (a:[1,2)", "execute task ready using input (:1)", "execute task ready using input (1:1)",
                "execute task ready using input a:1)", "execute task ready using input (a:\"open)", "execute task ready using base", "execute task ready with using dataset base", "execute task ready with label using dataset base",
                "execute task 5 using dataset base", "execute task ready with name x using dataset base", "execute task ready using dataset 5", "execute task ready using input (a:99999999999999999999999999999999999999999999999)", "execute task ready using input (a:.)",
                "print", "print base", "print raw", "print pretty", "print ugly base", "print raw base limit", "print raw base limit x", "print raw base limit 99999999999", "print raw base limit .", "print raw base 5",
                "limit 5", "with header", "raw", "5", "base", "( )", "\"text\"", "copy dataset base to other", "exit base", "help dataset base", "@", "{", "}", "!", "print raw base; exit", "&", "-", "\x01", "\xc3\xa9", "~"};
        string wrong = bad[vf::st().index % bad.size()];
        string text;
        for (long long n = g.range(0, 2); n > 0; n--) text += lang::spell(speaker->speak().words, g.chance(0.5)) + "\n";
        text += wrong + g.pick(vector<string>{"", "\n", " ", "\n# end", "\t"});
        judge(text, "wrong", 0);
        vf::count("wrong scripts");
    });

    vf::section("prompt", 120, 3000, [] { // at the prompt
        auto &g = rng();
        if (vf::st().index % 4 == 0 || !start) if (!begin()) return;
        World w("w", *start);
        string in;
        auto safe = [&](string s) {
            for (auto &c: s) if (c == '\n') c = ' ';
            return harmless(s) ? s : string("?");
        };
        bool over = false;
        for (long long n = g.range(1, 8); n > 0; n--) {
            switch (g.range(0, 7)) {
                case 0: in += "\n"; break;
                case 1: in += "\\\n"; break;
                case 2: in += g.pick(vector<string>{" ", "\t", "\\\\", "\\ ", "#", "# x \\", "\r", "   \\", string(1, '\0')}) + "\n"; break;
                case 3: in += safe(bytes((size_t) g.range(0, 30))) + "\n"; break;
                case 4: in += "print pretty nothing\n"; break;
                case 5: in += "print raw base limit 1\n"; break;
                case 6: in += safe(lang::spell(speak(1, 1), true)) + "\n"; break;
                default: in += "help\n";
            }
        }
        string lower = in;
        for (auto &c: lower) c = (char) tolower((unsigned char) c);
        over = lower.find("exit") != string::npos;
        if (!harmless(in)) return;
        vf::probe("prompt");
        string end = g.pick(vector<string>{"", "", "\\", "help \\", "print raw", "\\\n", " "});
        auto r = lang::interactive(w, in + end);
        if (!vf::check(r.ok, "prompt:crash", shown(in + end) + r.how + r.err.substr(0, 3000))) return;
        // whatever was said, the session goes on: the next lines are answered as in a new session
        if (!over) {
            World again("again", *start);
            auto both = lang::interactive(again, in + "\n\n" + after().substr(0, after().find('\n') + 1) + "print pretty base limit 2\nexit\n");
            if (!vf::check(both.ok, "prompt:crash", shown(in) + both.how)) return;
            auto fresh = lang::script(w, "help dataset\n"), second = lang::script(w, "print pretty base limit 2\n"), bye = lang::script(w, "exit");
            string tail = fresh.out + "> " + second.out + "> " + bye.out;
            vf::check(both.out.size() >= tail.size() && both.out.substr(both.out.size() - tail.size()) == tail, "prompt:after", shown(in) + " then " + shown(both.out));
            vf::count("sessions that went on");
        }
        vf::count("prompts");
        vf::nontrivial(in + end);
    });

    vf::section("large", 14, 100, [] {
        auto &g = rng();
        if (!start && !begin()) return;
        size_t n = (size_t) g.range(2000, 20000);
        auto times = [](const string &s, size_t n) {
            string r;
            for (size_t i = 0; i < n; i++) r += s;
            return r;
        };
        string text;
        int must = -1;
        switch (vf::st().index % 14) {
            case 0: text = times("\n", n * 10), must = 1; break;
            case 1: text = "#" + times("x", n * 5), must = 1; break;
            case 2: text = times("(", n), must = 0; break;
            case 3: text = "execute task ready using input (" + times("a:[", n), must = -1; break;
            case 4: text = "execute task ready using input (a: \"" + times("x", n * 5) + "\")", must = 1; break;
            case 5: text = "execute task ready using input (a: [" + times("1,", n / 4) + "1])", must = 1; break;
            case 6: text = "print raw " + times("a", n * 5), must = 1; break;
            case 7: text = "print raw base limit " + times("9", n), must = 0; break;
            case 8: text = times("\"", 401), must = 0; break;
            case 9: text = times("help dataset ", 200), must = 1; break;
            case 10: text = "create dataset x " + times("with header ", n / 10) + "using file://../data/missing.csv", must = 1; break;
            case 11: text = "create dataset x with given number a (" + times("9", 9) + "," + times("9", 9) + "," + times("9", 9) + ") at 0 using file://../data/f0.csv", must = 1; break;
            case 12: text = "create dataset x " + times("with given number a at 0 ", 300) + "using file://../data/f0.csv", must = 1; break;
            default: text = "execute task ready using input (" + times("a:1,", n / 10) + "b:2)", must = 1; break;
        }
        judge(text, "large", must);
        vf::count("large scripts");
    });

    vf::require("accepted", 50);
    vf::require("rejected", 200);
    vf::require("sessions that went on", 200);
    vf::require("incomplete scripts", 30);
    vf::require("wrong scripts", 50);
    vf::require("prompts", 50);
    vf::require("large scripts", 5);
    return vf::main();
}
