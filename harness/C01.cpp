// C01: the spelling of a script doesn't matter.
#include "lang.hpp"

using namespace happyml;
using vf::rng;
using lang::World;
using std::string;
using std::to_string;
using std::vector;

int main() {
    vf::rule("A case is a distinct script, run as the statements it means, as usually written, and in two other spellings.");
    vf::section("spelling", 260, 6000, [] {
        auto &g = rng();
        World start("start");
        auto base = lang::source(8, true);
        vf::writeFile(start.dir + "/data/base.csv", base.text);
        lang::Speaker speaker{start, g.pick(vector<string>{"Base", "base_1", "toBase"}), base, {}};
        for (long long n = g.range(1, 3), i = 0; i < n; i++) {
            lang::Set x;
            x.name = lang::names()[(size_t) (g.range(0, 4) + 5 * i)];
            x.file = g.pick(vector<string>{"", "raw/", "Test/", "input_1/", "a.b/at/", "with/header/using/"}) + g.pick(vector<string>{"f", "label", "F_", "RAW"}) + to_string(i) + ".csv";
            x.source = lang::source(6);
            std::filesystem::create_directories(std::filesystem::path(start.dir + "/data/" + x.file).parent_path());
            vf::writeFile(start.dir + "/data/" + x.file, x.source.text);
            speaker.sets.push_back(x);
        }
        auto made = lang::script(start, ds::statement(base, speaker.base, "file://../data/base.csv"));
        if (!vf::check(made.ok && vf::exists(start.set(speaker.base)), "setup", made.how + made.err)) return;
        lang::task(start, "ready", speaker.base);
        std::filesystem::create_directories(start.dir + "/happyml_repo/datasets/broken");
        vf::writeFile(start.set("broken"), "nonsense");

        vector<lang::Spoken> script;
        for (long long n = vf::side(1, 7, 40); n > 0; n--) {
            auto s = speaker.speak();
            if (s.kind == "exit" && n > 2) s = speaker.speak();
            script.push_back(s);
            // nothing is to run after the first one that fails, but keep some scripts like that
            if (s.kind == "create task" && s.words[3].text != "ready" && n > 2) script.pop_back();
        }
        if (script.empty()) script.push_back(speaker.create(speaker.sets[0].name, speaker.sets[0].source, "file://../data/" + speaker.sets[0].file));
        string story;
        for (auto &s: script) story += lang::spell(s.words, true);

        World meant("meant", start);
        vf::probe("meaning");
        auto wanted = lang::run(meant, [&] {
            auto context = std::make_shared<ExecutionContext>();
            for (auto &s: script) {
                std::shared_ptr<ExecutionResult> r;
                try {
                    r = s.meaning()->execute(context);
                } catch (std::exception &e) {
                    r = std::make_shared<ExecutionResult>(false, false, e.what());
                }
                if (!r->isSuccessful()) std::cerr << r->getMessage() << std::endl;
                if (!r->isSuccessful() || r->exitRequested()) return r->exitRequested();
            }
            return false;
        });
        if (!vf::check(wanted.ok, "meaning", story + wanted.how + wanted.err)) return;
        auto tree = meant.tree();
        for (int way = 0; way < 3; way++) {
            string text;
            if (way && g.chance(0.3)) text += g.pick(vector<string>{"\n", "# first\n", "\r\n\t", "  "});
            for (size_t i = 0; i < script.size(); i++) text += lang::spell(script[i].words, way == 0, i + 1 == script.size());
            World w("way", start);
            string name = way == 0 ? "usual" : "other";
            bool file = g.chance(0.3);
            vf::probe(name.c_str());
            lang::Ran r;
            if (file) {
                vf::writeFile(w.dir + "/script", text);
                r = lang::run(w, [&] {
                    InterpreterSession session(initializeHappymlParser());
                    return session.interpretFile("../script");
                });
                std::filesystem::remove(w.dir + "/script");
            } else r = lang::script(w, text);
            string what = "\n" + text + "\n(meaning:\n" + story + ")\n";
            if (!vf::check(r.ok, name + ":crash", what + r.how + r.err)) return;
            vf::check(r.done == wanted.done, name + ":exit", what);
            vf::check(r.out == wanted.out, name + ":output", what + "printed:\n" + r.out + "\ninstead of:\n" + wanted.out + "\n" + r.err);
            vf::check(r.err == wanted.err, name + ":errors", what + "reported:\n" + r.err + "\ninstead of:\n" + wanted.err);
            string d = ds::difference(tree, w.tree());
            vf::check(d.empty(), name + ":effects", what + d);
            vf::count("spellings");
        }
        for (auto &s: script) vf::count("scripts with: " + s.kind);
        if (wanted.err.empty()) vf::count("without failure");
        vf::nontrivial(story);
    });
    vf::require("spellings", 300);
    vf::require("without failure", 40);
    for (auto k: {"create dataset", "execute task", "print", "help", "create task", "exit"}) vf::require(string("scripts with: ") + k, 10);
    return vf::main();
}
