// C09: damaged or missing data files are errors, not crashes or silence.
#include <bits/stdc++.h>
#include "lang/interpreter.hpp"
#include "nets.hpp"

using namespace happyml;
using vf::rng;
using vf::X;

typedef shared_ptr<BinaryColumnMetadata> Meta;
typedef vector<shared_ptr<BaseTensor>> Tensors;

struct Silence { // the library explains itself on cout and cerr
    streambuf *a = cerr.rdbuf(), *b = cout.rdbuf();
    ostringstream sink;

    Silence() {
        cerr.rdbuf(sink.rdbuf());
        cout.rdbuf(sink.rdbuf());
    }

    ~Silence() {
        cerr.rdbuf(a);
        cout.rdbuf(b);
    }
};

// Runs fn, which describes what it saw that is wrong, where a crash, a hang or a huge allocation can be seen.
static void guarded(const string &key, const function<string()> &fn, const string &what, int timeout = 30) {
    vf::writeFile("current", "");
    auto r = vf::isolated([&] {
        Silence silence;
        try { return fn(); } catch (const std::exception &e) { return string("exception ") + e.what(); }
    }, timeout);
    if (r.timed_out) vf::fail(key + ":hang", what + " did not end " + vf::readFile("current"));
    else if (!r.exited || r.code != 0) vf::fail(key + ":crash", what + " " + vf::readFile("current") + ": " + r.describe() + " " + r.err.substr(0, 1500));
    else vf::check(r.out.empty(), key, what + ": " + r.out.substr(0, 1500));
}

static string text(size_t most) {
    string s;
    for (long long n = rng().range(0, (long long) most); n > 0; n--) s += (char) rng().range('a', 'z');
    return s;
}

struct Stored {
    vector<Meta> metas; // given and then expected
    size_t given = 0;
    vector<vector<float>> rows;
    size_t row_bytes = 0, header = 0;
    string bytes;
};

static vector<float> flat(const pair<Tensors, Tensors> &r) {
    vector<float> f;
    for (auto *side: {&r.first, &r.second})
        for (auto &t: *side)
            for (size_t i = 0; i < t->size(); i++) f.push_back(t->getValue(i));
    return f;
}

static Stored stored(const string &path, size_t most_rows) {
    auto &g = rng();
    Stored s;
    vector<Meta> a, b;
    for (long long n = g.range(1, 3); n > 0; n--) a.push_back(nullptr);
    for (long long n = g.range(0, 2); n > 0; n--) b.push_back(nullptr);
    for (auto *side: {&a, &b})
        for (auto &m: *side) {
            m = make_shared<BinaryColumnMetadata>();
            m->purpose = g.pick(vector<char>{'I', 'N', 'L'});
            m->rows = (uint64_t) g.range(1, 2);
            m->columns = (uint64_t) g.range(1, 4);
            m->channels = g.chance(0.2) ? 2 : 1;
            m->is_standardized = m->purpose == 'N' && g.chance(0.5);
            m->is_normalized = m->purpose == 'N' && g.chance(0.5);
            m->mean = (float) g.range(-9, 9);
            m->standard_deviation = (float) g.range(1, 9);
            m->min_value = (float) g.range(-9, 0);
            m->max_value = (float) g.range(1, 9);
            m->source_column_count = m->rows * m->columns * m->channels;
            m->name = text(9);
            if (m->purpose == 'L') for (uint64_t i = 0; i < m->columns; i++) m->ordered_labels.push_back(text(5) + to_string(i));
            s.metas.push_back(m);
            s.row_bytes += 4 * m->rows * m->columns * m->channels;
        }
    s.given = a.size();
    BinaryDatasetWriter w(path, a, b, 0);
    set<vector<float>> seen;
    for (long long n = g.range(0, (long long) most_rows); n > 0; n--) {
        pair<Tensors, Tensors> row;
        for (int side = 0; side < 2; side++)
            for (auto &m: side ? b : a) {
                vector<vector<vector<float>>> v(m->channels, vector<vector<float>>(m->rows, vector<float>(m->columns, 0.f)));
                for (auto &c: v)
                    for (auto &r: c) {
                        if (m->purpose == 'L') r[(size_t) g.range(0, (long long) r.size() - 1)] = 1.f;
                        else for (auto &x: r) x = m->purpose == 'I' ? (float) g.range(0, 255) / 255.f : (float) g.range(-99, 99);
                    }
                (side ? row.second : row.first).push_back(tensor(v));
            }
        w.writeRow(row.first, row.second);
    }
    w.close();
    s.bytes = vf::readFile(path);
    BinaryDatasetReader r(path);
    for (size_t i = 0; i < r.rowCount(); i++) s.rows.push_back(flat(r.readRow(i)));
    s.header = s.bytes.size() - s.rows.size() * s.row_bytes;
    return s;
}

// opens a dataset every way there is
struct Opened {
    bool error = false;
    vector<vector<float>> rows;
    string wrong;
};

static Opened open(const string &path, bool print) {
    Opened o;
    try {
        BinaryDatasetReader r(path);
        if (r.rowCount() > 100000) o.wrong = to_string(r.rowCount()) + " rows";
        for (size_t i = 0; i < r.rowCount() && o.wrong.empty(); i++) o.rows.push_back(flat(r.readRow(i)));
        try {
            r.readRow(r.rowCount());
            o.wrong = "a row after the last one could be read";
        } catch (const std::exception &) {}
    } catch (const std::exception &) { o.error = true; }
    try {
        BinaryDataSet d(path);
        size_t n = 0;
        while (auto rec = d.nextRecord()) n += !flat({rec->getGiven(), rec->getExpected()}).empty() || true;
        if (o.error) o.wrong += " opened as a training dataset, though it can't be read";
        else if (n != o.rows.size()) o.wrong += " has " + to_string(n) + " training records and " + to_string(o.rows.size()) + " rows";
    } catch (const std::exception &) {
        if (!o.error) o.wrong += " is refused as a training dataset only";
    }
    if (print)
        for (bool raw: {true, false})
            try {
                BinaryDatasetReader r(path);
                ostringstream out;
                pretty_print(out, r, 3, raw);
            } catch (const std::exception &) {}
    return o;
}

static void write8(string &bytes, size_t at, uint64_t v) {
    for (int i = 0; i < 8 && at + i < bytes.size(); i++) bytes[at + i] = (char) (v >> (8 * i));
}

static string digest(const vector<vector<X>> &p) {
    string s;
    for (auto &r: p) for (auto &x: r) s += vf::show(x) + ";";
    return s;
}

static vector<vector<X>> predictions(const shared_ptr<NeuralNetworkForTraining> &nn, const vector<vf::Record> &rs) {
    vector<vector<X>> o;
    for (auto &r: rs) {
        Tensors in;
        for (auto &x: r.given) in.push_back(vf::toT(x));
        vector<X> one;
        for (auto &t: nn->predict(in)) one.push_back(vf::toX(t));
        o.push_back(one);
    }
    return o;
}

static void restore(const string &dir, const map<string, string> &files) {
    vf::freshDir(dir);
    for (auto &f: files) {
        filesystem::create_directories(filesystem::path(dir + "/" + f.first).parent_path());
        vf::writeFile(dir + "/" + f.first, f.second);
    }
}

int main() {
    vf::rule("A case is a distinct stored file together with the distinct ways in which it was damaged; every way is one opening of the real file.");

    vf::section("dataset-truncated", 160, 6000, [] {
        string path = "t.bin";
        auto s = stored(path, 6);
        vf::probe("truncate");
        vector<size_t> cuts;
        if (s.bytes.size() < 400) for (size_t i = 0; i < s.bytes.size(); i++) cuts.push_back(i);
        else for (int i = 0; i < 300; i++) cuts.push_back((size_t) rng().range(0, (long long) s.bytes.size() - 1));
        guarded("truncated-dataset", [&] {
            for (size_t cut: cuts) {
                vf::writeFile(path, s.bytes.substr(0, cut));
                auto o = open(path, cut % 5 == 0);
                string at = "cut at " + to_string(cut) + " of " + to_string(s.bytes.size()) + " bytes (header " + to_string(s.header) + ", row " + to_string(s.row_bytes) + "): ";
                if (!o.wrong.empty()) return at + o.wrong;
                bool whole = cut >= s.header && (cut - s.header) % s.row_bytes == 0;
                if (!whole && !o.error) return at + "read without an error as " + to_string(o.rows.size()) + " rows";
                if (whole && o.error) return at + "refused, though only whole rows are missing";
                if (whole && o.rows != vector<vector<float>>(s.rows.begin(), s.rows.begin() + (long) ((cut - s.header) / s.row_bytes))) return at + "other rows than those stored";
            }
            return string();
        }, "a truncated dataset");
        vf::count("truncations", (long long) cuts.size());
        vf::nontrivial("dt" + to_string(s.bytes.size()) + s.bytes);
    });

    vf::section("dataset-corrupted", 160, 6000, [] {
        auto &g = rng();
        string path = "c.bin";
        auto s = stored(path, 5);
        vector<string> damaged;
        vector<bool> body;
        for (int i = 0; i < 120; i++) {
            string b = s.bytes;
            bool in_body = !s.rows.empty() && g.chance(0.15);
            size_t from = in_body ? s.header : 0, to = in_body ? b.size() : s.header;
            switch (g.range(0, 4)) {
                case 0: b[(size_t) g.range((long long) from, (long long) to - 1)] = (char) g.range(0, 255); break;
                case 1: for (int k = 0; k < 4; k++) b[(size_t) g.range((long long) from, (long long) to - 1)] ^= (char) (1 << g.range(0, 7)); break;
                case 2: {
                    size_t at = (size_t) g.range((long long) from, (long long) to - 1);
                    uint64_t v = g.pick(vector<uint64_t>{0, 1, 0xff, 0xffff, 0x7fffffff, 0xffffffff, 1ull << 32, 1ull << 40, 1ull << 61, 1ull << 62, 1ull << 63, ~0ull, ~0ull >> 1});
                    if (in_body) v &= 0xff;
                    if (!in_body || at + 8 <= to) write8(b, at, v);
                    if (in_body && at + 8 > to) b[at] = 1;
                    break;
                }
                case 3: { // where the counts, dimensions and lengths are: they have a zero byte before or after
                    for (int tries = 0; tries < 50; tries++) {
                        size_t at = (size_t) g.range((long long) from, (long long) to - 1);
                        if (b[at] == 0) {
                            b[at] = (char) g.range(1, 255);
                            break;
                        }
                    }
                    break;
                }
                default:
                    if (in_body) b[(size_t) g.range((long long) from, (long long) to - 1)] = (char) 255;
                    else if (g.chance(0.5)) b.erase((size_t) g.range(0, (long long) to - 1), (size_t) g.range(1, 9));
                    else b.insert((size_t) g.range(0, (long long) to - 1), text(9) + "x");
            }
            damaged.push_back(b);
            body.push_back(in_body);
        }
        vf::probe("corrupt");
        guarded("corrupted-dataset", [&] {
            for (size_t i = 0; i < damaged.size(); i++) {
                vf::writeFile(path, damaged[i]);
                auto o = open(path, i % 3 == 0);
                string at = "damage " + to_string(i) + (body[i] ? " of the rows: " : " of the header: ");
                if (!o.wrong.empty()) return at + o.wrong;
                if (body[i]) {
                    if (o.error) return at + "refused";
                    if (o.rows.size() != s.rows.size()) return at + to_string(o.rows.size()) + " rows";
                    for (size_t r = 0; r < o.rows.size(); r++) {
                        bool touched = damaged[i].compare(s.header + r * s.row_bytes, s.row_bytes, s.bytes, s.header + r * s.row_bytes, s.row_bytes) != 0;
                        if (!touched && o.rows[r] != s.rows[r]) return at + "row " + to_string(r) + " changed though its bytes did not";
                    }
                } else if (!o.error) {
                    size_t values = o.rows.empty() ? 0 : o.rows.size() * o.rows[0].size() * 4;
                    if (values > damaged[i].size()) return at + "more values than the file has bytes";
                }
            }
            return string();
        }, "a corrupted dataset");
        vf::count("corruptions", (long long) damaged.size());
        vf::nontrivial("dc" + s.bytes + damaged[0] + damaged[1]);
    });

    vf::section("tensor", 200, 6000, [] {
        auto &g = rng();
        X x = vf::randX((size_t) g.range(1, 5), (size_t) g.range(1, 5), (size_t) g.range(1, 3), 0, 1);
        int kind = (int) g.range(0, 3);
        auto full = vf::toT(x);
        shared_ptr<BaseTensor> t = full;
        if (kind == 1) t = make_shared<HalfTensor>(full);
        if (kind == 2) t = make_shared<PixelTensor>(full);
        if (kind == 3) t = make_shared<QuarterTensor>(full, 4);
        string path = "x.tensor";
        vf::check(t->save(path), "tensor:save", path);
        string bytes = vf::readFile(path);
        auto load = [&]() -> shared_ptr<BaseTensor> {
            if (kind == 0) return make_shared<FullTensor>(path);
            if (kind == 1) return make_shared<HalfTensor>(path);
            if (kind == 2) return make_shared<PixelTensor>(path);
            return make_shared<QuarterTensor>(path, 4);
        };
        vector<string> damaged;
        for (size_t i = 0; i < bytes.size(); i += (size_t) g.range(1, 3)) damaged.push_back(bytes.substr(0, i));
        size_t truncations = damaged.size();
        for (int i = 0; i < 40; i++) {
            string b = bytes;
            size_t at = (size_t) g.range(0, 23);
            if (g.chance(0.5)) b[at] = (char) g.range(0, 255);
            else write8(b, at, g.pick(vector<uint64_t>{0, 0xffff, 0xffffffff, 1ull << 32, 1ull << 40, 1ull << 62, 1ull << 63, ~0ull}));
            if (b != bytes) damaged.push_back(b);
        }
        vf::probe("tensor");
        guarded("tensor", [&] {
            for (size_t i = 0; i < damaged.size(); i++) {
                vf::writeFile(path, damaged[i]);
                try {
                    auto l = load();
                    if (i < truncations) return "a file cut at " + to_string(damaged[i].size()) + " of " + to_string(bytes.size()) + " bytes was loaded";
                    if (l->size() > bytes.size()) return "damage " + to_string(i) + ": more values than the file has bytes";
                    for (size_t e = 0; e < l->size(); e++) l->getValue(e);
                } catch (const std::exception &) {}
            }
            return string();
        }, "a damaged tensor of kind " + to_string(kind));
        vf::count("truncations", (long long) truncations);
        vf::count("corruptions", (long long) (damaged.size() - truncations));
        vf::nontrivial("t" + to_string(kind) + bytes);
    });

    vf::section("model", 160, 5000, [] {
        auto &g = rng();
        vf::GenOptions go;
        auto spec = vf::genNet(go);
        string dir = vf::freshDir("m");
        string want;
        map<string, string> files;
        vector<vf::Record> rs;
        for (int i = 0; i < 2; i++) rs.push_back(vf::randRecord(spec));
        {
            auto nn = vf::build(spec, "net", dir);
            vf::writeParams(vf::randParams(spec, vf::readParams(spec, nn, dir + "/k")), nn, dir + "/k");
            nn->saveWithOverwrite();
            want = digest(predictions(nn, rs));
        }
        for (auto &e: filesystem::recursive_directory_iterator(dir + "/net"))
            if (e.is_regular_file()) files[filesystem::relative(e.path(), dir + "/net").generic_string()] = vf::readFile(e.path().generic_string());
        struct Damage {
            string file, bytes, what;
            bool missing, truncated;
        };
        vector<Damage> damages;
        string config = files["model.config"];
        vector<string> names;
        for (auto &f: files) names.push_back(f.first);
        for (int i = 0; i < 25; i++) {
            string name = g.chance(0.6) ? "model.config" : g.pick(names);
            string b = files[name];
            if (g.chance(0.12)) damages.push_back({name, "", name + " removed", true, false});
            else if (g.chance(0.6) || name != "model.config") {
                size_t cut = (size_t) g.range(0, (long long) b.size() - 1);
                damages.push_back({name, b.substr(0, cut), name + " cut at " + to_string(cut) + " of " + to_string(b.size()), false, true});
            } else {
                int kind = (int) g.range(0, 3);
                string what;
                vector<string> lines;
                stringstream ss(b);
                for (string l; getline(ss, l);) lines.push_back(l);
                size_t k = (size_t) g.range(0, (long long) lines.size() - 1);
                if (kind == 0) {
                    what = "without its line " + lines[k];
                    lines.erase(lines.begin() + (long) k);
                } else if (kind == 1) {
                    what = "with two lines exchanged";
                    swap(lines[k], lines[(size_t) g.range(0, (long long) lines.size() - 1)]);
                } else if (kind == 2) {
                    size_t at = (size_t) g.range(0, (long long) lines[k].size() - 1);
                    lines[k][at] = g.pick(vector<char>{'x', '-', ':', '"', ' ', '.', '\0', '\xff', '<'});
                    what = "with the line " + lines[k];
                } else {
                    size_t at = (size_t) g.range(0, (long long) lines[k].size() - 1);
                    lines[k].erase(at, 1);
                    what = "with the line " + lines[k];
                }
                b.clear();
                for (auto &l: lines) b += l + "\n";
                damages.push_back({name, b, name + " " + what, false, false});
            }
        }
        vf::probe("model");
        guarded("model", [&] {
            for (auto &d: damages) {
                restore(dir + "/net", files);
                if (d.missing) filesystem::remove(dir + "/net/" + d.file);
                else vf::writeFile(dir + "/net/" + d.file, d.bytes);
                vf::writeFile("current", d.what);
                bool loaded = false;
                try {
                    auto nn = loadNeuralNetworkForTraining("net", dir);
                    loaded = true;
                    auto got = digest(predictions(nn, rs));
                    if (d.missing || (d.truncated && d.file != "model.config")) return d.what + " was loaded";
                    if (d.truncated && got != want) return d.what + " was loaded as another model, which predicts " + got.substr(0, 200) + " instead of " + want.substr(0, 200);
                } catch (const std::exception &e) {
                    if (loaded && d.truncated) return d.what + " was loaded, and predicting failed: " + e.what();
                }
            }
            return string();
        }, "a damaged model\n" + config, 60);
        long long done = (long long) damages.size();
        vf::count("model_damages", done);
        vf::nontrivial("m" + config);
    });

    vf::section("tokenizer", 160, 5000, [] {
        auto &g = rng();
        string dir = vf::freshDir("b");
        auto train = [&](const string &name) {
            BytePairEncoderModel m(name, false);
            vector<string> words;
            for (long long n = g.range(1, 60); n > 0; n--) {
                string w;
                for (long long k = g.range(1, 8); k > 0; k--) w += (char) g.range('a', 'e');
                words.push_back(w);
            }
            m.train(words, -1, 0.00001, 2, (int) g.range(1, 40));
            return m;
        };
        auto m = train("default");
        vf::check(m.save(dir, "k"), "tokenizer:save", dir);
        string path = dir + "/k/default.bpe", bytes = vf::readFile(path);
        auto codes = m.getBpeCodes();
        vector<size_t> ends{2}; // where each pair of codes ends
        for (auto &c: codes) ends.push_back(ends.back() + 4 + 2 * (c.first.size() + c.second.size()));
        vf::check(ends.back() == bytes.size(), "tokenizer:layout", to_string(bytes.size()));
        vector<string> damaged;
        for (size_t i = 0; i < bytes.size(); i += (size_t) g.range(1, 4)) damaged.push_back(bytes.substr(0, i));
        size_t truncations = damaged.size();
        for (int i = 0; i < 40; i++) {
            string b = bytes;
            for (long long n = g.range(1, 3); n > 0; n--) b[(size_t) g.range(0, (long long) b.size() - 1)] = (char) g.pick(vector<int>{0, 1, 255, (int) g.range(0, 255)});
            damaged.push_back(b);
        }
        auto other = train("default");
        auto before = other.getBpeCodes();
        auto largest = other.getLargestCode();
        string word = "abcdeabcde";
        auto encoded = other.encode(word);
        vf::probe("tokenizer");
        guarded("tokenizer", [&] {
            for (size_t i = 0; i < damaged.size(); i++) {
                vf::writeFile(path, damaged[i]);
                BytePairEncoderModel into = other;
                bool ok = into.load(dir, "k");
                string at = i < truncations ? "cut at " + to_string(damaged[i].size()) + " of " + to_string(bytes.size()) : "corrupted";
                if (!ok) {
                    if (into.getBpeCodes() != before || into.getLargestCode() != largest || into.encode(word) != encoded) return at + ": not loaded, but changed the encoder";
                } else if (i < truncations) {
                    auto e = find(ends.begin(), ends.end(), damaged[i].size());
                    if (e == ends.end()) return at + ": was loaded";
                    // the largest codes are first, so what remains is a shorter list
                    if (into.getBpeCodes() != decltype(codes)(codes.begin(), codes.begin() + (e - ends.begin()))) return at + ": other codes than those saved";
                } else {
                    into.encode(word);
                    into.getLargestCode();
                }
            }
            filesystem::remove(path);
            BytePairEncoderModel into = other;
            if (into.load(dir, "k")) return string("a missing encoder was loaded");
            filesystem::create_directories(path);
            if (into.load(dir, "k")) return string("a folder was loaded");
            if (into.load(dir + "/nowhere", "k")) return string("a missing folder was loaded");
            if (into.getBpeCodes() != before) return string("not loaded, but changed the encoder");
            filesystem::remove(path);
            vf::writeFile(path, bytes);
            if (!into.load(dir, "k") || into.getBpeCodes() != codes || into.getLargestCode() != m.getLargestCode() || into.encode(word) != m.encode(word))
                return string("the undamaged encoder does not replace the codes there were");
            return string();
        }, "a damaged byte pair encoder with " + to_string(codes.size()) + " codes");
        vf::count("truncations", (long long) truncations);
        vf::count("corruptions", (long long) (damaged.size() - truncations));
        vf::nontrivial("b" + bytes);
    });

    vf::section("delimited", 200, 8000, [] {
        auto &g = rng();
        string path = "d.csv";
        char delimiter = g.pick(vector<char>{',', '\t', ':', ';'});
        vector<vector<string>> records;
        {
            DelimitedTextFileWriter w(path, delimiter);
            size_t columns = (size_t) g.range(1, 4);
            for (long long n = g.range(1, 6); n > 0; n--) {
                vector<string> r;
                for (size_t c = 0; c < columns; c++) r.push_back(g.chance(0.3) ? "a\"b" + string(1, delimiter) + "\nc" : to_string(g.range(-99, 99)));
                records.push_back(r);
                w.writeRecord(r);
            }
            w.close();
        }
        string bytes = vf::readFile(path);
        bool quoted = g.chance(0.4);
        if (quoted) { // as other programs write it
            bytes.clear();
            for (auto &r: records) {
                for (size_t c = 0; c < r.size(); c++) {
                    if (c) bytes += delimiter;
                    bytes += '"';
                    for (char x: r[c]) bytes += x == '"' ? string("\"\"") : string(1, x);
                    bytes += '"';
                }
                bytes += '\n';
            }
        }
        size_t columns = records[0].size();
        vf::probe("delimited");
        guarded("delimited", [&] {
            for (size_t cut = 0; cut < bytes.size(); cut++) {
                vf::writeFile(path, bytes.substr(0, cut));
                string at = "cut at " + to_string(cut) + " of [" + bytes + "]: ";
                vector<vector<string>> got;
                bool error = false;
                try {
                    DelimitedTextFileReader r(path, delimiter);
                    while (r.hasNext()) {
                        if (got.size() > records.size()) return at + "more records than were written";
                        got.push_back(r.nextRecord());
                    }
                } catch (const std::exception &) { error = true; }
                for (size_t i = 0; i + 1 < got.size() + (error ? 1 : 0); i++)
                    if (i >= records.size() || got[i] != records[i]) return at + "record " + to_string(i) + " is another one";
                if (!error && cut == bytes.size() - 1 && got != records) return at + "the last line break mattered";
                if (columns > 1 && cut % 3 == 0) {
                    try {
                        auto numbers = make_shared<TextToScalarEncoder>();
                        auto d = loadDelimitedValuesDataset(path, delimiter, false, true, g.chance(0.5), 1, columns - 1, {1, 1, 1}, {1, columns - 1, 1}, numbers, numbers);
                        if (d->recordCount() > records.size()) return at + "more training records than were written";
                    } catch (const std::exception &) {}
                }
            }
            return string();
        }, "a truncated delimited file");
        vf::count("truncations", (long long) bytes.size());
        vf::nontrivial("d" + bytes);
    });

    vf::section("missing", 60, 400, [] {
        auto &g = rng();
        string dir = vf::freshDir("e");
        filesystem::create_directories(dir + "/folder");
        string path = g.pick(vector<string>{dir + "/none", dir + "/none/none", dir + "/folder/none.bin", dir + "/folder/"});
        bool folder = path.back() == '/';
        int kind = (int) vf::st().index % 9;
        vf::probe("missing");
        auto throws = [](const function<void()> &fn) {
            try { fn(); } catch (const std::exception &) { return string(); }
            return string("no error");
        };
        guarded("missing", [&]() -> string {
            switch (kind) {
                case 0: {
                    TextLinePathReader r(path, g.chance(0.5));
                    if (r.hasNext() || r.is_open()) return "has lines";
                    if (!r.nextLine().empty()) return "a line was read";
                    return "";
                }
                case 1: {
                    DelimitedTextFileReader r(path, ',', g.chance(0.5));
                    return r.hasNext() || r.is_open() ? "has records" : "";
                }
                case 2: return throws([&] { BinaryDatasetReader r(path); });
                case 3: return throws([&] { BinaryDataSet r(path); });
                case 4: return throws([&] { loadNeuralNetworkForTraining("net", path); });
                case 5: return throws([&] { loadTensor(path, (uint8_t) g.pick(vector<int>{8, 16, 32})); });
                case 6: return BytePairEncoderModel("default", false).load(path, "k") ? "loaded" : "";
                case 7: {
                    if (folder) return "";
                    auto e = make_shared<TextToScalarEncoder>();
                    return throws([&] { loadDelimitedValuesDataset(path, ',', false, true, false, 1, 1, {1, 1, 1}, {1, 1, 1}, e, e); });
                }
                default: {
                    if (folder) return "";
                    if (!load_file_to_lines(path).empty() || !load_file_to_tokens(path).empty()) return "has text";
                    return BytePairEncoderModel("default", false).train_on_file(path) ? "a tokenizer was trained" : "";
                }
            }
        }, "opening missing " + path + " as kind " + to_string(kind));
        for (auto &e: filesystem::recursive_directory_iterator(dir)) vf::check(e.path().filename() == "folder" || e.path().string() == dir + "/folder", "missing:left-behind", e.path().string());
        vf::count("missing_" + to_string(kind));
        vf::nontrivial("x" + to_string(kind) + path);
    });

    vf::require("truncations", 1000);
    vf::require("corruptions", 1000);
    vf::require("model_damages", 100);
    for (int k = 0; k < 9; k++) vf::require("missing_" + to_string(k), 1);
    return vf::main();
}
