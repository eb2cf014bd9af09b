// C22: byte pair encoding is lossless and survives storage.
#include <bits/stdc++.h>
#include <sys/resource.h>
#include "ml/byte_pair_encoder.hpp"
#include "common.hpp"

using namespace happyml;
using vf::rng;

typedef vector<pair<u16string, u16string>> Codes;

struct Silence {
    streambuf *a = cerr.rdbuf(), *b = cout.rdbuf();
    ostringstream sink;

    Silence() {
        cerr.rdbuf(sink.rdbuf());
        cout.rdbuf(sink.rdbuf());
    }

    ~Silence() {
        cerr.rdbuf(a);
        cout.rdbuf(b);
    }
};

struct Alphabet {
    vector<char> letters;
};

static Alphabet alphabet() {
    auto &g = rng();
    Alphabet a;
    switch (g.range(0, 4)) {
        case 0: a.letters = {'a'}; break;
        case 1: a.letters = {'a', 'b'}; break;
        case 2: for (char c = 'a'; c <= 'z'; c++) a.letters.push_back(c); break;
        case 3: for (int c = 0; c < 256; c++) a.letters.push_back((char) c); break;
        default: for (long long n = g.range(2, 12); n > 0; n--) a.letters.push_back((char) g.range(0, 255));
    }
    return a;
}

static string word(const Alphabet &a, size_t most) {
    auto &g = rng();
    string s;
    long long n = g.chance(0.8) ? g.range(0, (long long) most) : vf::side(0, (long long) most, 80);
    while ((long long) s.size() < n) {
        if (!s.empty() && g.chance(0.2)) s += s.substr((size_t) g.range(0, (long long) s.size() - 1), 3); // repeats
        else s += a.letters[(size_t) g.range(0, (long long) a.letters.size() - 1)];
    }
    return s;
}

static vector<string> words(const Alphabet &a, size_t most, size_t longest) {
    vector<string> w;
    for (long long n = vf::side(0, (long long) most, (long long) most * 5); n > 0; n--) w.push_back(!w.empty() && rng().chance(0.3) ? w[(size_t) rng().range(0, (long long) w.size() - 1)] : word(a, longest));
    return w;
}

static string hex(const string &s) {
    string r;
    char b[8];
    for (unsigned char c: s) snprintf(b, sizeof b, c >= 32 && c < 127 ? "%c" : "\\x%02x", c), r += b;
    return r;
}

static string hex(const u16string &s) {
    string r;
    for (auto c: s) r += to_string((unsigned) c) + " ";
    return r;
}

// what each code stands for, expanded by its definition alone
static string checkCodes(const Codes &codes, uint16_t delimiter, uint16_t largest) {
    map<char16_t, u16string> by;
    for (auto &c: codes) {
        if (c.second.size() != 1) return "a code of " + to_string(c.second.size()) + " characters";
        if (by.count(c.second[0])) return "code " + hex(c.second) + " stands for two pairs";
        if (c.first.size() < 2) return "code " + hex(c.second) + " stands for fewer than two codes";
        if (c.second[0] <= delimiter || c.second[0] >= 0x7fff) return "code " + hex(c.second) + " is taken";
        if (c.second[0] >= largest) return "code " + hex(c.second) + " is not below the largest, " + to_string(largest);
        by[c.second[0]] = c.first;
    }
    set<u16string> pairs;
    for (auto &c: codes) {
        if (!pairs.insert(c.first).second) return "two codes stand for " + hex(c.first);
        for (auto x: c.first) if (x > delimiter && x < 0x7fff && (!by.count(x) || x >= c.second[0])) return "code " + hex(c.second) + " is made of " + to_string((unsigned) x) + ", which was not known then";
    }
    return "";
}

static u16string expand(const Codes &codes, const u16string &s) {
    map<char16_t, u16string> by;
    for (auto &c: codes) by[c.second[0]] = c.first;
    u16string r;
    vector<char16_t> todo(s.rbegin(), s.rend());
    while (!todo.empty()) {
        auto x = todo.back();
        todo.pop_back();
        auto f = by.find(x);
        if (f == by.end()) r += x;
        else todo.insert(todo.end(), f->second.rbegin(), f->second.rend());
    }
    return r;
}

static void roundtrip(BytePairEncoderModel &m, const vector<string> &texts, const string &key) {
    auto codes = m.getBpeCodes();
    auto delimiter = m.getDelimiter();
    vector<u16string> all = m.encode(texts);
    vf::check(all.size() == texts.size(), key + ":count", "");
    for (size_t i = 0; i < texts.size(); i++) {
        auto e = m.encode(texts[i]);
        if (!vf::check(i < all.size() && all[i] == e, key + ":list", hex(texts[i]))) return;
        string d = m.decode(e);
        if (!vf::check(d == texts[i], key + ":decode", "[" + hex(texts[i]) + "] became [" + hex(d) + "] through " + hex(e))) return;
        if (texts[i].empty()) vf::check(e.empty(), key + ":empty", "");
        else {
            vf::check(e.size() <= texts[i].size() + 2, key + ":longer", hex(texts[i]));
            // the codes stand for exactly the text between two delimiters
            auto x = expand(codes, e);
            string inner;
            for (size_t k = 1; k + 1 < x.size(); k++) inner += (char) x[k];
            vf::check(x.size() == texts[i].size() + 2 && x.front() == delimiter[0] && x.back() == delimiter[0] && inner == texts[i], key + ":expansion", "[" + hex(texts[i]) + "] is " + hex(e));
            if (e.size() < texts[i].size() + 2) vf::count("compressed");
        }
    }
    vf::count("texts", (long long) texts.size());
}

int main() {
    vf::bigEvery(60);
    vf::rule("A case is a distinct trained encoder (by its codes) together with the texts that went through it.");

    vf::section("train", 800, 40000, [] {
        auto &g = rng();
        auto a = alphabet();
        auto data = words(a, g.chance(0.1) ? 300 : 40, g.chance(0.2) ? 60 : 10);
        uint16_t delimiter = g.chance(0.7) ? 256 : (uint16_t) g.range(256, 0x7ff0);
        int merges = g.chance(0.5) ? -1 : (int) g.range(0, 20);
        size_t least = (size_t) g.range(1, 4);
        int patience = g.chance(0.8) ? -1 : (int) g.range(0, 3);
        BytePairEncoderModel m("default", g.chance(0.2), delimiter);
        vf::probe("train");
        {
            Silence s;
            m.train(data, patience, 0.00001, least, merges);
        }
        auto codes = m.getBpeCodes();
        string bad = checkCodes(codes, delimiter, m.getLargestCode());
        vf::check(bad.empty(), "train:codes", bad);
        vf::check(m.getDelimiter() == u16string(1, delimiter), "train:delimiter", hex(m.getDelimiter()));
        if (merges >= 0) vf::check(codes.size() <= (size_t) merges, "train:merges", to_string(codes.size()) + " merges instead of at most " + to_string(merges));
        vf::check(m.getLargestCode() == delimiter + 1 + codes.size(), "train:largest", to_string(m.getLargestCode()) + " after " + to_string(codes.size()) + " codes");
        if (patience < 0) { // the pairs that were learned are those that are frequent, the most frequent first
            map<u16string, size_t> freq;
            for (auto &w: data) {
                if (w.empty()) continue;
                u16string x(1, delimiter);
                for (char c: w) x += (char16_t) c;
                x += delimiter;
                for (size_t i = 0; i + 1 < x.size(); i++) freq[x.substr(i, 2)]++;
            }
            size_t possible = 0;
            for (auto &f: freq) possible += f.second >= least;
            size_t wanted = merges < 0 ? possible : min(possible, (size_t) merges);
            wanted = min(wanted, (size_t) (0x7ffe - delimiter - 1));
            vf::check(codes.size() == wanted, "train:how-many", to_string(codes.size()) + " codes for " + to_string(possible) + " frequent pairs and at most " + to_string(merges));
            size_t before = SIZE_MAX;
            multiset<size_t> learned, best;
            for (size_t i = codes.size(); i-- > 0;) { // the first one learned is the last one
                size_t f = freq.count(codes[i].first) ? freq[codes[i].first] : 0;
                vf::check(f >= least, "train:rare", hex(codes[i].first) + " occurs " + to_string(f) + " times, less than " + to_string(least));
                vf::check(f <= before, "train:order", hex(codes[i].first) + " occurs " + to_string(f) + " times, and was learned after a pair that occurs " + to_string(before));
                before = f;
                learned.insert(f);
            }
            vector<size_t> fs;
            for (auto &f: freq) fs.push_back(f.second);
            sort(fs.rbegin(), fs.rend());
            for (size_t i = 0; i < codes.size() && i < fs.size(); i++) best.insert(fs[i]);
            vf::check(learned == best, "train:most-frequent", "less frequent pairs were learned");
            vf::count("merges", (long long) codes.size());
        }
        vf::probe("roundtrip");
        vector<string> texts = data;
        for (auto &w: words(a, 15, 40)) texts.push_back(w);
        for (auto &w: words(alphabet(), 15, 30)) texts.push_back(w);
        texts.push_back("");
        texts.push_back(string(1, '\0'));
        texts.push_back(string((size_t) g.range(1, 500), a.letters[0]));
        roundtrip(m, texts, "roundtrip");
        // how well it compresses
        double before = 0, after = 0;
        for (auto &t: texts) before += (double) t.size(), after += (double) m.encode(t).size();
        if (before > 0) vf::check(fabs(m.validate_compression_rate(texts) - after / before) <= 1e-9, "rate", to_string(m.validate_compression_rate(texts)));
        string key;
        for (auto &c: codes) key += hex(c.first) + hex(c.second);
        vf::nontrivial(key + (codes.empty() ? "" : hex(texts[0])));
    });

    vf::section("retrain", 200, 8000, [] { // training again extends what was learned
        auto &g = rng();
        BytePairEncoderModel m("default", false);
        vector<string> seen;
        string key;
        for (long long round = g.range(2, 4); round > 0; round--) {
            auto a = alphabet();
            auto data = words(a, 40, 12);
            auto before = m.getBpeCodes();
            auto largest = m.getLargestCode();
            vf::probe("retrain");
            m.train(data, -1, 0.00001, (size_t) g.range(1, 3), g.chance(0.5) ? -1 : (int) g.range(0, 30));
            auto codes = m.getBpeCodes();
            string bad = checkCodes(codes, 256, m.getLargestCode());
            vf::check(bad.empty(), "retrain:codes", bad);
            vf::check(m.getLargestCode() >= largest, "retrain:largest", "");
            for (auto &c: before) vf::check(find(codes.begin(), codes.end(), c) != codes.end(), "retrain:lost", hex(c.first));
            for (auto &c: codes) if (find(before.begin(), before.end(), c) == before.end()) vf::check(c.second[0] >= largest, "retrain:reused", hex(c.second));
            seen.insert(seen.end(), data.begin(), data.end());
            roundtrip(m, seen, "retrain");
            key += to_string(codes.size()) + hex(seen.empty() ? "" : seen.back());
            vf::count("retrained");
        }
        vf::nontrivial("r" + key);
    });

    vf::section("configure", 300, 10000, [] { // codes made elsewhere, of any length, in any order
        auto &g = rng();
        auto a = alphabet();
        uint16_t delimiter = (uint16_t) g.range(256, 2000);
        unordered_map<u16string, u16string> codes;
        vector<char16_t> known;
        for (char c: a.letters) known.push_back((char16_t) c);
        known.push_back(delimiter);
        uint16_t next = (uint16_t) (delimiter + g.range(1, 50));
        for (long long n = vf::side(0, 40, 400); n > 0; n--) {
            u16string p;
            for (long long k = g.range(2, 4); k > 0; k--) p += known[(size_t) g.range(0, (long long) known.size() - 1)];
            if (codes.count(p)) continue;
            codes[p] = u16string(1, next);
            known.push_back(next);
            next = (uint16_t) (next + g.range(1, 3));
        }
        BytePairEncoderModel m("default", false);
        if (g.chance(0.4)) m.train(words(alphabet(), 20, 10));
        vf::probe("configure");
        m.configure(codes, delimiter);
        auto got = m.getBpeCodes();
        vf::check(got.size() == codes.size(), "configure:count", to_string(got.size()));
        for (auto &c: got) vf::check(codes.count(c.first) && codes[c.first] == c.second, "configure:code", hex(c.first));
        uint16_t top = delimiter;
        for (auto &c: got) top = max(top, (uint16_t) c.second[0]);
        vf::check(m.getLargestCode() == top + 1, "configure:largest", to_string(m.getLargestCode()) + " instead of " + to_string(top + 1));
        string bad = checkCodes(got, delimiter, m.getLargestCode());
        vf::check(bad.empty(), "configure:codes", bad);
        roundtrip(m, words(a, 40, 30), "configure");
        string key;
        for (auto &c: got) key += hex(c.first);
        vf::nontrivial("c" + key);
    });

    vf::section("stored", 400, 15000, [] {
        auto &g = rng();
        string dir = vf::freshDir("b");
        auto a = alphabet();
        string name = g.chance(0.5) ? "default" : "english";
        uint16_t delimiter = g.chance(0.7) ? 256 : (uint16_t) g.range(256, 0x7000);
        BytePairEncoderModel m(name, false, delimiter);
        m.train(words(a, 60, 12), -1, 0.00001, 2, g.chance(0.7) ? -1 : (int) g.range(0, 9));
        vf::probe("save");
        string label = g.chance(0.5) ? "k" : "deep/er";
        if (g.chance(0.3)) { // over another one
            BytePairEncoderModel before(name, false);
            before.train(words(alphabet(), 60, 12));
            before.save(dir, label);
        }
        vf::check(m.save(dir, label), "stored:save", label);
        BytePairEncoderModel again(name, false, g.chance(0.5) ? 256 : (uint16_t) g.range(256, 0x7000));
        if (g.chance(0.5)) again.train(words(alphabet(), 60, 12));
        vf::probe("load");
        vf::check(again.load(dir, label), "stored:load", label);
        vf::check(again.getBpeCodes() == m.getBpeCodes(), "stored:codes", to_string(again.getBpeCodes().size()) + " codes instead of " + to_string(m.getBpeCodes().size()));
        vf::check(again.getDelimiter() == m.getDelimiter(), "stored:delimiter", hex(again.getDelimiter()));
        vf::check(again.getLargestCode() == m.getLargestCode(), "stored:largest", to_string(again.getLargestCode()) + " instead of " + to_string(m.getLargestCode()));
        auto texts = words(a, 30, 30);
        for (auto &w: words(alphabet(), 10, 20)) texts.push_back(w);
        for (auto &t: texts) vf::check(again.encode(t) == m.encode(t) && again.decode(m.encode(t)) == t, "stored:encode", hex(t));
        roundtrip(again, texts, "stored");
        auto more = words(alphabet(), 30, 10); // and it can be trained further
        again.train(more);
        string bad = checkCodes(again.getBpeCodes(), delimiter, again.getLargestCode());
        vf::check(bad.empty(), "stored:retrain", bad);
        roundtrip(again, texts, "stored:retrained");
        vf::count("stored");
        string key;
        for (auto &c: m.getBpeCodes()) key += hex(c.first);
        vf::nontrivial("s" + key + to_string(delimiter));
    });

    vf::section("files", 60, 1500, [] { // trained on a file or a folder of files
        auto &g = rng();
        string dir = vf::freshDir("f");
        auto a = alphabet();
        bool folder = g.chance(0.5);
        string all;
        set<u16string> pairs;
        map<u16string, size_t> freq;
        for (long long n = folder ? g.range(1, 3) : 1; n > 0; n--) {
            string t;
            long long size = g.chance(0.1) ? g.range(262100, 262200) : g.range(0, 400);
            while ((long long) t.size() < size) t += g.chance(0.2) ? string(1, " \n\t,.!"[g.range(0, 5)]) : word(a, 8);
            vf::writeFile(dir + "/" + to_string(n) + ".txt", t);
            for (auto &tok: string_to_tokens(t)) {
                u16string x(1, 256);
                for (char c: tok) x += (char16_t) c;
                x += (char16_t) 256;
                for (size_t i = 0; i + 1 < x.size(); i++) freq[x.substr(i, 2)]++;
            }
            all += t;
        }
        BytePairEncoderModel m("default", g.chance(0.3));
        vf::probe("files");
        bool ok;
        {
            Silence s;
            ok = folder ? m.train_on_folder(dir) : m.train_on_file(dir + "/1.txt");
        }
        vf::check(ok, "files:trained", dir);
        size_t frequent = 0;
        for (auto &f: freq) frequent += f.second >= 2;
        auto codes = m.getBpeCodes();
        vf::check(codes.size() == min(frequent, (size_t) (0x7ffe - 257)), "files:codes", to_string(codes.size()) + " codes for " + to_string(frequent) + " frequent pairs of " + to_string(all.size()) + " bytes");
        for (auto &c: codes) vf::check(freq.count(c.first) && freq[c.first] >= 2, "files:pair", hex(c.first));
        auto tokens = string_to_tokens(all.substr(0, 2000));
        roundtrip(m, tokens, "files");
        vf::count("files");
        vf::nontrivial("f" + to_string(all.size()) + hex(all.substr(0, 40)));
    });

    vf::section("full", 3, 30, [] { // more pairs than there are codes
        auto &g = rng();
        vector<string> data;
        for (int x = 0; x < 48; x++)
            for (int y = 0; y < 48; y++) data.push_back(string() + (char) x + (char) y);
        BytePairEncoderModel m("default", false, (uint16_t) g.range(0x7f00, 0x7ff0));
        vf::probe("full");
        m.train(data, -1, 0.00001, 1, -1);
        auto delimiter = (uint16_t) m.getDelimiter()[0];
        string bad = checkCodes(m.getBpeCodes(), delimiter, m.getLargestCode());
        vf::check(bad.empty(), "full:codes", bad);
        m.train(data, -1, 0.00001, 1, -1);
        bad = checkCodes(m.getBpeCodes(), delimiter, m.getLargestCode());
        vf::check(bad.empty(), "full:again", bad);
        roundtrip(m, vector<string>(data.begin(), data.begin() + 300), "full");
        vf::nontrivial("full" + to_string(delimiter));
    });

    vf::section("full-disk", 40, 400, [] {
        auto &g = rng();
        string dir = vf::freshDir("u");
        BytePairEncoderModel m("default", false);
        m.train(words(alphabet(), 60, 12));
        auto codes = m.getBpeCodes();
        size_t size = 2;
        for (auto &c: codes) size += 4 + 2 * (c.first.size() + c.second.size());
        size_t limit = (size_t) g.range(0, (long long) size + 5);
        vf::probe("full-disk");
        auto r = vf::isolated([&] {
            signal(SIGXFSZ, SIG_IGN);
            rlimit now{}, old{};
            getrlimit(RLIMIT_FSIZE, &old);
            now = old;
            now.rlim_cur = limit;
            setrlimit(RLIMIT_FSIZE, &now);
            bool ok = m.save(dir, "k");
            setrlimit(RLIMIT_FSIZE, &old);
            return string(ok ? "saved" : "refused");
        });
        if (!vf::check(r.exited && r.code == 0, "full-disk:crash", r.describe())) return;
        vf::check(r.out == (limit < size ? "refused" : "saved"), "full-disk", r.out + " with " + to_string(limit) + " bytes for " + to_string(size));
        if (r.out == "saved") {
            BytePairEncoderModel again("default", false);
            vf::check(again.load(dir, "k") && again.getBpeCodes() == codes, "full-disk:loaded", "");
        } else vf::count("disks too small");
        vf::nontrivial("u" + to_string(codes.size()) + "," + to_string(limit));
    });

    vf::require("texts", 1000);
    vf::require("compressed", 100);
    vf::require("merges", 100);
    vf::require("retrained", 10);
    vf::require("stored", 10);
    vf::require("files", 3);
    vf::require("disks too small", 3);
    return vf::main();
}
