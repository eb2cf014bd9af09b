// C06: a dataset holds every distinct record of its source, once, saying what the source says; nothing else changes.
#include <bits/stdc++.h>
#include "lang/interpreter.hpp"
#include "common.hpp"
#include "ds.hpp"
#include <sys/resource.h>

using namespace happyml;
using vf::rng;

static const string REPO = "../happyml_repo", SETS = "../happyml_repo/datasets/";

static vector<shared_ptr<ColumnGroup>> groups(const ds::Source &s) {
    vector<shared_ptr<ColumnGroup>> r;
    size_t id = 1;
    for (auto &c: s.cols) r.push_back(make_shared<ColumnGroup>(id++, c.start, c.width(), c.use, c.type, c.name, c.rows, c.columns, c.channels));
    rng().shuffle(r); // declared in any order
    return r;
}

// -1 threw, 0 said it failed, 1 said it worked
static int create(const string &name, const string &location, const ds::Source &s, string &message) {
    auto context = make_shared<ExecutionContext>();
    try {
        if (rng().chance(0.3)) CreateDatasetStatement(name, location, s.header, groups(s)).execute(context); // spoken, for its output
        else;
        CreateDatasetStatement statement(name, location, s.header, groups(s), false);
        auto r = statement.execute(context);
        message = r->getMessage();
        return r->isSuccessful() ? 1 : 0;
    } catch (std::exception &e) {
        message = e.what();
        return -1;
    }
}

struct Stored {
    vector<vector<double>> numbers; // by column, given before expected; labels as positions
    vector<vector<string>> labels;
};

static string describe(const ds::Source &s) {
    string d = s.header ? "header " : "";
    for (auto &c: s.cols)
        d += c.use + ":" + c.type + "(" + to_string(c.rows) + "," + to_string(c.columns) + "," + to_string(c.channels) + ")@" + to_string(c.start) + " ";
    d += to_string(s.records.size()) + " records";
    if (!s.records.empty()) {
        d += ", first ";
        for (auto &f: s.records[0]) d += "[" + f + "]";
    }
    return d;
}

static bool augment(size_t row, const vector<vector<size_t>> &edges, vector<int> &owner, vector<char> &seen) {
    for (auto g: edges[row])
        if (!seen[g]) {
            seen[g] = 1;
            if (owner[g] < 0 || augment((size_t) owner[g], edges, owner, seen)) {
                owner[g] = (int) row;
                return true;
            }
        }
    return false;
}

static void judge(const string &file, const ds::Source &s, const string &key) {
    string what = describe(s);
    BinaryDatasetReader reader(file);
    vector<const ds::Col *> cols = s.of("given"), e = s.of("expected");
    size_t ng = cols.size();
    cols.insert(cols.end(), e.begin(), e.end());
    if (!vf::check(reader.get_given_column_count() == ng && reader.get_expected_column_count() == e.size(), key + ":column count", what)) return;
    vector<shared_ptr<RawDecoder>> decoders = build_given_decoders(false, reader), de = build_expected_decoders(false, reader);
    decoders.insert(decoders.end(), de.begin(), de.end());
    vector<double> tolerance(cols.size(), 0);
    for (size_t i = 0; i < cols.size(); i++) {
        auto &c = *cols[i];
        auto m = i < ng ? reader.get_given_metadata(i) : reader.get_expected_metadata(i - ng);
        vf::check(m->name == c.name, key + ":name", m->name + " for " + c.name + " of " + what);
        char purpose = c.type == "number" ? 'N' : c.type == "label" ? 'L' : 'I';
        vf::check(m->purpose == purpose, key + ":purpose", what);
        set<string> labels;
        if (c.type == "label") {
            for (auto &r: s.records) for (size_t k = 0; k < c.width(); k++) labels.insert(ds::trim(r[c.start + k]));
            vf::check(set<string>(m->ordered_labels.begin(), m->ordered_labels.end()) == labels && m->ordered_labels.size() == labels.size(), key + ":labels", what);
        }
        size_t columns = c.type == "label" ? labels.size() : c.columns;
        if (!vf::check(m->rows == c.rows && m->columns == columns && m->channels == c.channels, key + ":dimensions",
                       to_string(m->rows) + "," + to_string(m->columns) + "," + to_string(m->channels) + " for " + c.name + " of " + what)) return;
        if (c.type == "number") {
            double big = 0;
            for (auto &r: s.records) for (size_t k = 0; k < c.width(); k++) big = std::max(big, (double) std::fabs(ds::number_of(r[c.start + k])));
            tolerance[i] = 1e-6 * big + 1e-37;
            vf::count(m->is_standardized ? "standardized columns" : "plain number columns");
        }
    }
    // the distinct given values of the source, each with the expected values it came with
    map<string, vector<const ds::Record *>> distinct;
    for (auto &r: s.records) distinct[ds::key_of(s, r, "given")].push_back(&r);
    vector<vector<const ds::Record *>> wanted;
    for (auto &[k, v]: distinct) wanted.push_back(v);
    if (!vf::check(reader.rowCount() == wanted.size(), key + (reader.rowCount() < wanted.size() ? ":records lost" : ":records repeated"),
                   to_string(reader.rowCount()) + " stored, " + to_string(wanted.size()) + " distinct in " + what)) return;
    if (wanted.size() < s.records.size()) vf::count("sources with duplicates");
    vf::count("records", (long long) wanted.size());
    vector<vector<size_t>> edges(wanted.size());
    for (size_t row = 0; row < wanted.size(); row++) {
        auto pair = reader.readRow(row);
        auto t = pair.first;
        t.insert(t.end(), pair.second.begin(), pair.second.end());
        vector<vector<double>> v(cols.size());
        vector<vector<string>> l(cols.size());
        for (size_t i = 0; i < cols.size(); i++) {
            auto &c = *cols[i];
            if (c.type == "label") {
                auto &labels = (i < ng ? reader.get_given_metadata(i) : reader.get_expected_metadata(i - ng))->ordered_labels;
                if (c.rows == 1) l[i].push_back(decoders[i]->decodeBest(t[i]));
                else for (size_t r = 0; r < c.rows; r++) l[i].push_back(labels.at(t[i]->maxIndexByRow(0, r)));
                for (size_t r = 0; r < c.rows; r++) {
                    double sum = 0;
                    for (size_t k = 0; k < labels.size(); k++) sum += std::fabs(t[i]->getValue(r, k, 0));
                    vf::check(sum == 1, key + ":one hot", what);
                }
            } else {
                auto d = c.type == "number" ? decoders[i]->decode(t[i]) : t[i];
                for (size_t k = 0; k < c.channels; k++)
                    for (size_t r = 0; r < c.rows; r++)
                        for (size_t x = 0; x < c.columns; x++) v[i].push_back((double) d->getValue(r, x, k) * (c.type == "image" ? 255. : 1.));
            }
        }
        auto same = [&](size_t from, size_t to, const ds::Record &r) {
            for (size_t i = from; i < to; i++) {
                auto &c = *cols[i];
                for (size_t k = 0; k < c.width(); k++) {
                    auto &cell = r[c.start + k];
                    if (c.type == "label") {
                        if (l[i][k] != ds::trim(cell)) return false;
                    } else if (!(std::fabs(v[i][k] - ds::number_of(cell)) <= (c.type == "image" ? 1e-3 : tolerance[i]))) return false;
                }
            }
            return true;
        };
        for (size_t w = 0; w < wanted.size(); w++) {
            if (!same(0, ng, *wanted[w][0])) continue;
            for (auto r: wanted[w])
                if (same(ng, cols.size(), *r)) {
                    edges[row].push_back(w);
                    break;
                }
        }
        if (edges[row].empty()) {
            string got;
            for (size_t i = 0; i < cols.size(); i++) {
                got += cols[i]->name + "=";
                for (auto x: v[i]) got += to_string(x) + " ";
                for (auto &x: l[i]) got += "'" + x + "' ";
            }
            bool given = false;
            for (auto &w: wanted) given = given || same(0, ng, *w[0]);
            vf::fail(key + (given ? ":expected values" : ":given values"), "stored record " + to_string(row) + " is not in the source: " + got + " of " + what);
            return;
        }
    }
    vector<int> owner(wanted.size(), -1);
    for (size_t row = 0; row < wanted.size(); row++) {
        vector<char> seen(wanted.size(), 0);
        if (!vf::check(augment(row, edges, owner, seen), key + ":records lost", "stored records stand for fewer than the distinct ones of " + what)) return;
    }
}

static void fresh() {
    vf::freshDir(REPO.c_str());
    vf::freshDir("in");
    std::filesystem::create_directories(SETS);
}

int main() {
    vf::freshDir("w/cwd");
    if (chdir("w/cwd") != 0) return 3;
    vf::rule("the stored records, decoded, match one to one with the records of the source that have distinct given values, within 1e-6 of the largest number of the column");
    vf::rule("the source, files next to it and everything else are unchanged and nothing but dataset.bin is left, after failures not even that");

    vf::section("faithful", 900, 20000, []() {
        auto &g = rng();
        fresh();
        auto s = ds::make(g.chance(0.1) ? 200 : 30);
        string ext = g.chance(0.25) ? "tsv" : "csv";
        if (ext == "tsv") {
            for (auto &r: s.records) for (auto &f: r) std::replace(f.begin(), f.end(), '\t', ' ');
            for (auto &c: s.cols) for (auto &f: c.pool) std::replace(f.begin(), f.end(), '\t', ' ');
            s.delimiter = '\t';
            ds::render(s);
        }
        string base = g.chance(0.2) ? "in/a.b" : "in/source";
        vf::writeFile(base + "." + ext, s.text);
        // other people's files, named as ours might be
        for (auto n: {".csv", ".tsv", ".sorted.csv", ".given-expected.csv", ".txt", ".csv.tmp"})
            if ("." + ext != n && g.chance(0.5)) vf::writeFile(base + n, string("precious") + n);
        if (g.chance(0.3)) vf::writeFile("in/chunk_0.txt", "precious");
        if (g.chance(0.3)) {
            std::filesystem::create_directories(SETS + "set");
            vf::writeFile(SETS + "set/notes", "precious");
        }
        auto in = ds::tree("in"), repo = ds::tree(REPO);
        if (!repo.count("/datasets/set")) repo["/datasets/set"] = "<dir>";
        string message;
        vf::probe("create");
        int r = create("set", "file://" + base + "." + ext, s, message);
        if (s.records.empty()) {
            vf::check(r != 1, "empty:accepted", describe(s));
            vf::count("empty sources");
            return;
        }
        if (!vf::check(r == 1, "faithful:refused:" + ext, message + " for " + describe(s))) return;
        string d = ds::difference(in, ds::tree("in"));
        vf::check(d.empty(), "faithful:source folder", d + " for " + describe(s));
        auto after = ds::tree(REPO);
        if (!vf::check(after.count("/datasets/set/dataset.bin") == 1, "faithful:no dataset", describe(s))) return;
        string bin = after["/datasets/set/dataset.bin"];
        after.erase("/datasets/set/dataset.bin");
        d = ds::difference(repo, after);
        vf::check(d.empty(), "faithful:left behind", d + " for " + describe(s));
        judge(SETS + "set/dataset.bin", s, "faithful");
        vf::count("sources:" + ext);
        for (auto &c: s.cols) vf::count("columns:" + c.type);
        vf::nontrivial(s.text + describe(s));
        if (g.chance(0.1)) { // again: what exists is not replaced
            auto other = ds::make(10);
            vf::writeFile("in/other.csv", other.text);
            create("set", "file://in/other.csv", other, message);
            vf::check(vf::readFile(SETS + "set/dataset.bin") == bin, "exists:replaced", describe(s));
            vf::count("existing datasets");
        }
    });

    vf::section("large", 9, 200, []() {
        // more records than are sorted at a time, more labels than a byte can tell apart, more columns than usual
        auto &g = rng();
        fresh();
        ds::Source s;
        auto column = [&](const string &use, const string &type, size_t columns = 1) {
            ds::Col c;
            c.use = use;
            c.type = type;
            c.name = use.substr(0, 1) + to_string(s.cols.size());
            c.columns = columns;
            c.start = s.width;
            s.width += c.width();
            s.cols.push_back(c);
            return s.cols.size() - 1;
        };
        auto kind = vf::st().index % 3;
        s.header = g.chance(0.5);
        string message;
        if (kind == 0) {
            bool last = g.chance(0.5);
            if (!last) column("given", "number");
            column("expected", "label");
            column("expected", "number");
            if (last) column("given", "number");
            size_t id = last ? 2 : 0, label = last ? 0 : 1, number = label + 1;
            long long n = g.pick(vector<long long>{10000, 10001, 20000, g.range(10002, 30000), g.range(10002, 30000)});
            vector<long long> ids;
            for (long long i = 0; i < n; i++) ids.push_back(g.chance(0.05) && i ? g.range(0, i) : i); // sometimes an earlier one again
            if (g.chance(0.7)) g.shuffle(ids);
            auto of = [](long long i) { return to_string((i * 7919) % 1000) + (i % 2 ? ".5" : ""); };
            for (auto i: ids) {
                ds::Record r(3);
                r[id] = to_string(i);
                r[label] = "l" + to_string(i % 3);
                r[number] = of(i);
                s.records.push_back(r);
            }
            ds::render(s);
            vf::writeFile("in/source.csv", s.text);
            string what = to_string(n) + " records";
            if (!vf::check(create("set", "file://in/source.csv", s, message) == 1, "large:refused", message + " for " + what)) return;
            auto left = ds::tree(REPO);
            vf::check(left.size() == 3 || left.size() == 2, "large:left behind", to_string(left.size()) + " files for " + what);
            set<long long> wanted(ids.begin(), ids.end());
            BinaryDatasetReader reader(SETS + "set/dataset.bin");
            vf::check(reader.rowCount() == wanted.size(), string("large:") + (reader.rowCount() < wanted.size() ? "records lost" : "records repeated"),
                      to_string(reader.rowCount()) + " stored of " + to_string(wanted.size()) + " distinct ones of " + what);
            auto dg = build_given_decoders(false, reader), de = build_expected_decoders(false, reader);
            set<long long> got;
            string bad;
            for (size_t row = 0; row < reader.rowCount() && bad.empty(); row++) {
                auto p = reader.readRow(row);
                double v = dg[0]->decode(p.first[0])->getValue(0, 0, 0);
                long long i = std::llround(v);
                string l = de[0]->decodeBest(p.second[0]);
                double e = de[1]->decode(p.second[1])->getValue(0, 0, 0);
                if (std::fabs(v - (double) i) > 0.1 || !wanted.count(i) || !got.insert(i).second || l != "l" + to_string(i % 3) || std::fabs(e - std::stod(of(i))) > 0.01)
                    bad = "record " + to_string(row) + " says " + to_string(v) + ", " + l + ", " + to_string(e) + " of " + what;
            }
            vf::check(bad.empty(), "large:given values", bad);
            vf::count("large: records", (long long) got.size());
            vf::count("large sources");
            vf::nontrivial(s.text);
            return;
        }
        if (kind == 1) {
            column("given", "number");
            column(g.chance(0.5) ? "given" : "expected", "label");
            long long labels = g.range(257, 400);
            for (long long i = 0; i < labels + g.range(0, 100); i++)
                s.records.push_back({to_string(i), "label " + to_string(i % labels)});
            g.shuffle(s.records);
            vf::count("large: labels", labels);
        } else {
            for (long long n = g.range(12, 40); n > 0; n--) {
                auto c = column(n == 1 || g.chance(0.7) ? "given" : "expected", g.pick(vector<string>{"number", "label", "image"}), 1);
                if (s.cols[c].type != "label" && g.chance(0.3)) s.width += 9, s.cols[c].columns = 10;
                s.cols[c].pool = ds::label_pool();
                for (auto &l: s.cols[c].pool) if (ds::trim(l).empty()) l = "e";
                s.cols[c].style = 1;
                s.cols[c].b = 9;
            }
            for (long long n = g.range(5, 40); n > 0; n--) {
                ds::Record r(s.width);
                for (auto &c: s.cols) for (size_t k = 0; k < c.width(); k++) r[c.start + k] = ds::cell(c);
                s.records.push_back(r);
            }
            vf::count("large: columns", (long long) s.cols.size());
        }
        ds::render(s);
        vf::writeFile("in/source.csv", s.text);
        if (!vf::check(create("set", "file://in/source.csv", s, message) == 1, "large:refused", message + " for " + describe(s))) return;
        judge(SETS + "set/dataset.bin", s, "large");
        vf::count("large sources");
        vf::nontrivial(s.text);
    });

    vf::section("refused", 500, 8000, []() {
        auto &g = rng();
        fresh();
        auto s = ds::make(20, false, false, 2);
        if (s.records.size() < 2) return;
        string location = "file://in/source.csv", what;
        size_t at = (size_t) g.range(0, (long long) s.records.size() - 1);
        bool failing = true;
        int kind = (int) g.range(0, 9);
        switch (kind) {
            case 0: { // two columns at one place
                auto c = g.pick(s.cols);
                ds::Col extra = c;
                extra.type = "number";
                extra.rows = extra.columns = extra.channels = 1;
                extra.start = c.start + (size_t) g.range(0, (long long) c.width() - 1);
                s.cols.push_back(extra);
                what = "overlap";
                break;
            }
            case 1: // a record that is too short
                s.records[at].resize(s.cols.back().start + s.cols.back().width() - 1);
                what = "short record";
                if (s.records[at].empty()) return; // a blank line
                break;
            case 2: { // something that is not a number
                vector<size_t> n;
                for (size_t i = 0; i < s.cols.size(); i++) if (s.cols[i].type != "label") n.push_back(i);
                if (n.empty()) return;
                auto &c = s.cols[g.pick(n)];
                s.records[at][c.start + (size_t) g.range(0, (long long) c.width() - 1)] = g.pick(vector<string>{"abc", "1x", "1 2", "--1", "0x", "1,5", "1.2.3", "\"", "12abc"});
                what = "not a number";
                break;
            }
            case 3: // no such file
                location = "file://in/nothing.csv";
                what = "missing file";
                break;
            case 4:
                location = g.pick(vector<string>{"file://in/source.doc", "file://in/source", "https://in/source.csv", "in/source.csv", "file:/in/source.csv", "file://"});
                what = "location " + location;
                break;
            case 5: { // nothing given
                for (auto &c: s.cols) c.use = "expected";
                what = "nothing given";
                break;
            }
            case 6:
                g.pick(s.cols);
                s.cols[(size_t) g.range(0, (long long) s.cols.size() - 1)].type = g.pick(vector<string>{"scalar", "", "nummer", "pixel"});
                what = "unknown type";
                break;
            case 7: // only a header, or nothing
                s.records.clear();
                what = "no records";
                break;
            case 8: // a label column of the wrong width
                for (auto &c: s.cols)
                    if (c.type == "label" && c.rows == 1 && &c == &s.cols.back()) {
                        c.columns = 2;
                        s.width = c.start + 2;
                        for (auto &r: s.records) {
                            r.resize(c.start);
                            r.push_back("x");
                            r.push_back("y");
                        }
                        what = "two columns for one label";
                    }
                if (what.empty()) return;
                break;
            default:
                what = "column beyond the end";
                s.cols.back().start += s.width;
                break;
        }
        ds::render(s);
        if (kind == 4) vf::writeFile("in/source.doc", s.text), vf::writeFile("in/source", s.text);
        vf::writeFile("in/source.csv", s.text);
        auto in = ds::tree("in"), repo = ds::tree(REPO);
        string message;
        vf::probe("refuse");
        int r = create("set", location, s, message);
        vf::check(r != 1 || !failing, "refused:accepted:" + (kind == 4 ? string("location") : what), what + " in " + describe(s));
        string d = ds::difference(in, ds::tree("in"));
        vf::check(d.empty(), "refused:source folder", what + ":" + d + " for " + describe(s));
        d = ds::difference(repo, ds::tree(REPO));
        vf::check(d.empty(), "refused:left behind:" + (kind == 4 ? string("location") : what), what + ":" + d + " for " + describe(s));
        vf::count("refused: " + (kind == 4 ? string("location") : what));
        vf::nontrivial(what + s.text);
    });

    vf::section("text", 60, 1000, []() {
        // plain text can only be labels so far
        auto &g = rng();
        fresh();
        string text;
        set<string> words;
        for (long long n = g.range(1, 40); n > 0; n--) text += (text.empty() ? "" : " ") + ("w" + to_string(g.range(0, 50)));
        vf::writeFile("in/source.txt", text);
        vf::writeFile("in/source.csv", "precious");
        auto in = ds::tree("in");
        ds::Source s;
        ds::Col c;
        c.use = "given";
        c.type = "label";
        c.name = "words";
        s.cols.push_back(c);
        s.width = 1;
        s.records.push_back({text}); // short enough for one cell
        string message;
        vf::probe("text");
        int r = create("set", "file://in/source.txt", s, message);
        vf::check(ds::difference(in, ds::tree("in")).empty(), "text:source folder", ds::difference(in, ds::tree("in")));
        if (!vf::check(r == 1, "text:refused", message)) return;
        judge(SETS + "set/dataset.bin", s, "text");
        vf::nontrivial(text);
    });

    vf::section("full disk", 60, 1500, []() {
        // no file may grow beyond some size: whatever was being written when that happened, nothing is left
        auto &g = rng();
        fresh();
        auto s = ds::make(g.chance(0.2) ? 400 : 40, false, false, 2);
        if (s.records.size() < 2) return;
        string ext = "csv";
        vf::writeFile("in/source.csv", s.text);
        long long most = (long long) s.text.size() + 400;
        for (auto &c: s.cols) most += (long long) (c.width() * 4 * s.records.size());
        rlim_t limit = (rlim_t) g.range(1, most);
        auto in = ds::tree("in"), repo = ds::tree(REPO);
        auto o = vf::isolated([&]() {
            signal(SIGXFSZ, SIG_IGN);
            rlimit r{}, old{};
            getrlimit(RLIMIT_FSIZE, &old);
            r = old;
            r.rlim_cur = limit;
            setrlimit(RLIMIT_FSIZE, &r);
            string message;
            int made = create("set", "file://in/source.csv", s, message);
            setrlimit(RLIMIT_FSIZE, &old);
            return to_string(made);
        }, 60);
        if (!vf::check(o.exited && o.code == 0 && !o.out.empty(), "full disk:crash", o.describe() + " limit " + to_string(limit) + " of " + describe(s))) return;
        vf::check(ds::difference(in, ds::tree("in")).empty(), "full disk:source folder", describe(s));
        if (o.out == "1") {
            judge(SETS + "set/dataset.bin", s, "full disk");
            vf::count("disks large enough");
        } else {
            string d = ds::difference(repo, ds::tree(REPO));
            vf::check(d.empty(), "full disk:left behind", d + " for limit " + to_string(limit) + " of " + describe(s));
            vf::count("disks too small");
        }
        vf::nontrivial(to_string(limit) + s.text);
    });

    vf::require("disks too small", 10);
    vf::require("large: records", 5000);
    vf::require("large: labels", 257);
    vf::require("large: columns", 12);
    for (auto c: {"sources:csv", "sources:tsv", "columns:number", "columns:label", "columns:image", "standardized columns", "sources with duplicates", "existing datasets"}) vf::require(c, 20);
    return vf::main();
}
