// C11: what a task is asked is encoded the way it was trained, wherever the question comes from, and so are its answers.
#include <bits/stdc++.h>
#include "lang.hpp"

using namespace lang;

// a source whose records all have different givens and whose labels can be told apart
static ds::Source some(bool predicts, size_t records = 10) {
    auto s = lang::source(records, predicts);
    for (auto &c: s.cols) if (rng().chance(0.3)) c.name = "Name Of " + c.name;
    return s;
}

// what a cell is once encoded
static vector<float> encoded(const ds::Col &c, const ds::Record &r, const BinaryColumnMetadata &m, bool &known) {
    vector<float> v;
    known = true;
    for (size_t k = 0; k < c.width(); k++) {
        string cell = ds::trim(r[c.start + k]);
        if (c.type == "label") {
            auto at = std::find(m.ordered_labels.begin(), m.ordered_labels.end(), cell) - m.ordered_labels.begin();
            if (at == (long) m.ordered_labels.size()) known = false;
            for (size_t i = 0; i < m.ordered_labels.size(); i++) v.push_back((long) i == at ? 1.f : 0.f);
        } else {
            double x = ds::number_of(cell);
            if (c.type == "image") x = std::floor(x + 0.5) / 255;
            else {
                if (m.is_standardized && m.standard_deviation != 0) x = (x - m.mean) / m.standard_deviation;
                else if (m.is_standardized) x = x - m.mean;
                if (m.is_normalized && m.max_value != m.min_value) x = (x - m.min_value) / ((double) m.max_value - m.min_value);
                else if (m.is_normalized) x = x - m.min_value;
            }
            v.push_back((float) x);
        }
    }
    return v;
}

static vector<float> flat(const std::shared_ptr<BaseTensor> &t) {
    vector<float> v;
    for (size_t k = 0; k < t->channelCount(); k++)
        for (size_t r = 0; r < t->rowCount(); r++)
            for (size_t c = 0; c < t->columnCount(); c++) v.push_back(t->getValue(r, c, k));
    return v;
}

// rounding of float arithmetic is relative to what is subtracted
static double room(const BinaryColumnMetadata &m) {
    if (m.purpose != 'N') return m.purpose == 'I' ? 1e-6 : 0;
    double big = std::max({std::fabs((double) m.mean), 1e-30}), x = 2e-6;
    if (m.is_standardized && m.standard_deviation > 0) {
        x += 4e-7 * big / m.standard_deviation;
        if (m.is_normalized && m.max_value > m.min_value) {
            x += 1e-6 * std::max(std::fabs((double) m.max_value), std::fabs((double) m.min_value));
            x = x / ((double) m.max_value - m.min_value) + 2e-6;
        }
    } else if (m.is_normalized && m.max_value > m.min_value)
        x += 1e-6 * std::max(std::fabs((double) m.max_value), std::fabs((double) m.min_value)) / ((double) m.max_value - m.min_value);
    return x;
}

static string numbers(const vector<float> &v) {
    string s;
    for (auto x: v) s += to_string(x) + " ";
    return s;
}

static bool near(const vector<float> &a, const vector<float> &b, double tolerance) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (!(std::fabs((double) a[i] - b[i]) <= tolerance * std::max(1., std::fabs((double) a[i])))) return false;
    return true;
}

static HappyMLVariant said(const ds::Col &c, const string &cell) {
    auto &g = rng();
    string t = ds::trim(cell);
    if (c.type == "label") {
        static const std::regex integer("0|[1-9][0-9]{0,4}");
        if (std::regex_match(t, integer) && g.chance(0.4)) return g.chance(0.5) ? HappyMLVariant(stoi(t)) : HappyMLVariant(stof(t));
        return HappyMLVariant(g.chance(0.8) ? t : " " + t + "\t");
    }
    if (t.empty()) t = "0";
    if (t == "1" && g.chance(0.3)) return HappyMLVariant(true);
    if (t == "0" && g.chance(0.3)) return HappyMLVariant(false);
    if (g.chance(0.3)) return HappyMLVariant((float) ds::number_of(t));
    static const std::regex integer("-?[0-9]{1,6}");
    if (g.chance(0.5) && std::regex_match(t, integer)) return HappyMLVariant(stoi(t));
    return HappyMLVariant(g.chance(0.8) ? t : " " + t + " ");
}

typedef std::unordered_map<string, vector<HappyMLVariant>> Inputs;

static string lower(string s) {
    for (auto &c: s) c = (char) tolower((unsigned char) c);
    return s;
}

static Inputs question(const ds::Source &s, const ds::Record &r) {
    Inputs in;
    for (auto c: s.of("given")) {
        vector<HappyMLVariant> v;
        for (size_t i = 0; i < c->width(); i++) v.push_back(said(*c, r[c->start + i]));
        in[lower(c->name)] = v;
    }
    return in;
}

static void make(const World &w, const string &name, const ds::Source &s) {
    vf::writeFile(w.dir + "/data/" + name + ".csv", s.text);
    auto r = script(w, ds::statement(s, name, "file://../data/" + name + ".csv") + "\n");
    if (!vf::exists(w.set(name))) throw std::runtime_error("no dataset: " + r.out + r.err + r.how);
}

// ds::statement doesn't quote names
static ds::Source plain(ds::Source s) {
    for (auto &c: s.cols) for (auto &x: c.name) if (x == ' ') x = '_';
    return s;
}

// the same columns with other values: other ranges, other labels among the known ones, in another order
static ds::Source other(const ds::Source &s, bool unknown) {
    auto &g = rng();
    ds::Source o = s;
    o.records.clear();
    for (auto &c: o.cols) {
        if (c.type == "label" && !(unknown && c.use == "given")) {
            std::set<string> known;
            for (auto &r: s.records) for (size_t k = 0; k < c.width(); k++) known.insert(ds::trim(r[c.start + k]));
            vector<string> labels(known.begin(), known.end());
            g.shuffle(labels);
            labels.resize((size_t) g.range(1, (long long) labels.size()));
            c.pool = labels;
        } else if (c.type == "label") c.pool.push_back("never seen");
        else if (c.type == "number" && g.chance(0.7)) {
            // a different range of the same kind of numbers
            double d = c.b - c.a;
            c.a += g.real(-1, 1) * d;
            c.b = c.a + d * g.real(0.2, 2);
            if (c.style == 4) c.a = std::floor(c.a);
        }
    }
    for (size_t n = (size_t) vf::side(1, 8, 120); n > 0; n--) {
        ds::Record r(s.width, "0");
        bool blank = true;
        for (auto &c: o.cols) for (size_t k = 0; k < c.width(); k++) if (!ds::trim(r[c.start + k] = ds::cell(c)).empty()) blank = false;
        if (blank) for (auto &c: o.cols) if (c.type != "label") r[c.start] = "0", blank = false;
        if (!blank) o.records.push_back(r);
    }
    if (o.records.empty()) o.records.push_back(s.records[0]);
    ds::render(o);
    return o;
}

static vector<std::shared_ptr<BinaryColumnMetadata>> given_of(const string &file) {
    BinaryDatasetReader r(file);
    return r.get_given_metadata();
}

static vector<std::shared_ptr<BinaryColumnMetadata>> expected_of(const string &file) {
    BinaryDatasetReader r(file);
    return r.get_expected_metadata();
}

static vector<string> cells(const string &line) {
    vector<string> r{""};
    for (char c: line) {
        if (c == '|') r.emplace_back();
        else r.back() += c;
    }
    for (auto &c: r) c = ds::trim(c);
    return r;
}

// what is printed after "Results:", without the header
static vector<vector<string>> results(const string &out, size_t header) {
    vector<vector<string>> r;
    std::istringstream in(out);
    string line;
    bool seen = false;
    while (std::getline(in, line)) {
        if (seen) {
            if (header) header--;
            else r.push_back(cells(line));
        } else if (line.rfind("Results:", 0) == 0) seen = true;
    }
    return r;
}

static bool same_cell(const string &a, const string &b) {
    if (a == b) return true;
    // numbers with three decimals, possibly several
    auto words = [](string t) {
        for (auto &c: t) if (strchr("(),{}[]", c)) c = ' ';
        return t;
    };
    std::istringstream x(words(a)), y(words(b));
    string p, q;
    while (true) {
        bool m = (bool) (x >> p), n = (bool) (y >> q);
        if (m != n) return false;
        if (!m) return true;
        if (p == q) continue;
        char *e, *f;
        double u = strtod(p.c_str(), &e), v = strtod(q.c_str(), &f);
        if (e == p.c_str() || f == q.c_str() || std::fabs(u - v) > 0.0025 + 2e-5 * std::fabs(u)) return false;
    }
}

static bool same_results(const vector<vector<string>> &a, const vector<vector<string>> &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) {
        if (a[i].size() != b[i].size()) return false;
        for (size_t k = 0; k < a[i].size(); k++) if (!same_cell(a[i][k], b[i][k])) return false;
    }
    return true;
}

static string show(const vector<vector<string>> &a) {
    string s;
    for (auto &r: a) {
        for (auto &c: r) s += "[" + c + "]";
        s += "\n";
    }
    return s;
}

int main() {
    vf::rule("A case is a distinct source whose records are asked of a task, as typed inputs or in a dataset, or read with the metadata of another dataset.");
    vf::require("number columns", 100);
    vf::require("label columns", 100);
    vf::require("image columns", 50);
    vf::require("other labels", 20);
    vf::require("other ranges", 20);
    vf::require("answers", 40);
    vf::require("answers for datasets", 40);

    vf::section("inputs", 240, 4000, [] {
        auto &g = rng();
        World w("w");
        auto s = plain(some(false, g.chance(0.2) ? 30 : 10));
        make(w, "d", s);
        BinaryDatasetReader reader(w.set("d"));
        auto encoders = build_given_encoders(reader);
        auto metadata = reader.get_given_metadata();
        auto given = s.of("given");
        g.shuffle(encoders);
        std::set<size_t> met;
        for (auto &r: s.records) {
            std::map<string, vector<float>> tensors;
            for (auto &e: encoders) {
                auto t = build_given(question(s, r), {e});
                if (!vf::check(t.size() == 1, "inputs:refused", e->get_name())) return;
                auto &m = *std::find_if(metadata.begin(), metadata.end(), [&](auto &x) { return x->name == e->get_name(); });
                if (!vf::check(t[0]->rowCount() == m->rows && t[0]->columnCount() == m->columns && t[0]->channelCount() == m->channels, "inputs:shape", e->get_name())) return;
                tensors[m->name] = flat(t[0]);
            }
            // it is one of the stored ones
            bool found = false;
            for (size_t i = 0; i < reader.rowCount() && !found; i++) {
                auto row = reader.readRow(i).first;
                bool same = true;
                for (size_t k = 0; k < row.size() && same; k++) same = near(flat(row[k]), tensors[metadata[k]->name], room(*metadata[k]));
                if (same) met.insert(i), found = true;
            }
            if (!found) {
                string d;
                for (auto &[n, v]: tensors) d += n + ": " + numbers(v);
                vf::fail("inputs:encoded", d);
            }
            vf::check(true, "inputs:encoded", "");
            // and what the statistics of the column make of it
            for (size_t k = 0; k < given.size(); k++) {
                bool known;
                auto e = encoded(*given[k], r, *metadata[k], known);
                vf::check(near(tensors[metadata[k]->name], e, room(*metadata[k]) * 2), "inputs:value", metadata[k]->name + " is " + numbers(tensors[metadata[k]->name]) + " and not " + numbers(e));
            }
        }
        for (auto c: given) vf::count(c->type + " columns");
        vf::nontrivial(s.text);
    });

    vf::section("refused", 160, 3000, [] {
        auto &g = rng();
        World w("w");
        auto s = plain(some(true, 6));
        make(w, "d", s);
        task(w, "t", "d");
        auto &r = g.pick(s.records);
        auto in = question(s, r);
        auto given = s.of("given");
        auto c = g.pick(given);
        auto &v = in[lower(c->name)];
        string what;
        switch (g.range(0, 4)) {
            case 0: what = "missing"; in.erase(lower(c->name)); break;
            case 1: what = "too many"; v.push_back(v[0]); break;
            case 2: what = "too few"; v.pop_back(); break;
            case 3: what = "renamed"; {
                auto copy = v;
                in.erase(lower(c->name));
                in[lower(c->name) + "_"] = copy;
                break;
            }
            default:
                what = "not a value";
                if (c->type == "label") v[(size_t) g.range(0, (long long) v.size() - 1)] = string("never seen");
                else v[(size_t) g.range(0, (long long) v.size() - 1)] = g.pick(vector<string>{"x", "1x", "1,5", "--1", "1 2", "1e", "one", "1.2.3"});
        }
        auto x = run(w, [&] {
            auto ok = ExecuteTaskStatement("t", "", "", in).execute(std::make_shared<ExecutionContext>());
            return ok->isSuccessful();
        });
        vf::check(x.ok && !x.done, "refused:" + what, x.how + x.out + x.err);
        vf::count("refusals");
        vf::nontrivial(what + s.text);
    });

    vf::section("dataset", 160, 3000, [] {
        auto &g = rng();
        World w("w");
        auto s = plain(some(false, 12));
        bool unknown = g.chance(0.15);
        auto o = plain(other(s, unknown));
        make(w, "d", s);
        make(w, "o", o);
        auto gm = given_of(w.set("d")), em = expected_of(w.set("d"));
        auto og = given_of(w.set("o"));
        auto given = o.of("given"), expected = o.of("expected");
        bool half = g.chance(0.3);
        bool refused = false;
        vector<vector<vector<float>>> rows;
        vector<std::shared_ptr<BaseTensor>> last;
        vector<vector<size_t>> shapes;
        try {
            BinaryDataSet set(w.set("o"), gm, half ? vector<std::shared_ptr<BinaryColumnMetadata>>{} : em);
            if (g.chance(0.5)) set.setShuffler(std::make_shared<Shuffler>(set.recordCount()));
            shapes = set.getGivenShapes();
            if (!half) for (auto &x: set.getExpectedShapes()) shapes.push_back(x);
            set.restart();
            while (auto r = set.nextRecord()) {
                rows.emplace_back();
                last = r->getGiven();
                for (auto &t: r->getGiven()) rows.back().push_back(flat(t));
                if (!half) for (auto &t: r->getExpected()) rows.back().push_back(flat(t)), last.push_back(t);
            }
        } catch (std::exception &e) {
            refused = true;
        }
        bool all_known = true;
        vector<vector<vector<float>>> wanted;
        for (auto &r: o.records) {
            wanted.emplace_back();
            for (size_t k = 0; k < given.size() + (half ? 0 : expected.size()); k++) {
                bool known;
                bool e = k >= given.size();
                wanted.back().push_back(encoded(e ? *expected[k - given.size()] : *given[k], r, e ? *em[k - given.size()] : *gm[k], known));
                all_known = all_known && known;
            }
        }
        if (!vf::check(refused == !all_known, all_known ? "dataset:refused" : "dataset:unknown label", refused ? "refused" : "accepted")) return;
        if (all_known) {
            for (size_t k = 0; k < shapes.size(); k++)
                vf::check(!last.empty() && shapes[k] == vector<size_t>{last[k]->rowCount(), last[k]->columnCount(), last[k]->channelCount()}, "dataset:shape", "");
            // arithmetic goes through the ranges of both
            vector<double> tolerance;
            for (size_t k = 0; k < given.size() + (half ? 0 : expected.size()); k++) {
                auto &m = k < given.size() ? *gm[k] : *em[k - given.size()];
                double t = room(m);
                if (m.purpose == 'N') {
                    double scale = 1, big = 1e-30;
                    for (auto &r: o.records) {
                        auto &c = k < given.size() ? *given[k] : *expected[k - given.size()];
                        for (size_t i = 0; i < c.width(); i++) big = std::max(big, std::fabs((double) ds::number_of(r[c.start + i])));
                    }
                    if (m.is_standardized && m.standard_deviation > 0) scale /= m.standard_deviation;
                    if (m.is_normalized && m.max_value > m.min_value) scale /= (double) m.max_value - m.min_value;
                    t = 2 * t + 4e-6 * big * scale;
                }
                tolerance.push_back(t);
            }
            for (auto &row: rows) {
                bool found = false;
                for (auto &x: wanted) {
                    bool same = true;
                    for (size_t k = 0; k < row.size() && same; k++) same = near(row[k], x[k], tolerance[k]);
                    found = found || same;
                }
                string d;
                for (auto &v: row) d += "(" + numbers(v) + ")";
                d += " of";
                for (auto &x: wanted) {
                    for (auto &v: x) d += "(" + numbers(v) + ")";
                    d += ";";
                }
                vf::check(found, "dataset:encoded", d);
            }
            for (size_t k = 0; k < given.size(); k++) {
                if (gm[k]->ordered_labels != og[k]->ordered_labels) vf::count("other labels");
                if (gm[k]->purpose == 'N' && (gm[k]->max_value != og[k]->max_value || gm[k]->mean != og[k]->mean)) vf::count("other ranges");
            }
        } else vf::count("unknown labels");
        vf::nontrivial(s.text + o.text);
    });

    vf::section("mismatch", 40, 600, [] {
        // datasets of other columns
        auto &g = rng();
        World w("w");
        auto s = plain(some(false, 5));
        make(w, "d", s);
        auto gm = given_of(w.set("d")), em = expected_of(w.set("d"));
        auto copy = [](const std::shared_ptr<BinaryColumnMetadata> &m) { return std::make_shared<BinaryColumnMetadata>(*m); };
        for (auto &m: gm) m = copy(m);
        for (auto &m: em) m = copy(m);
        auto &list = !em.empty() && g.chance(0.5) ? em : gm;
        auto &m = g.pick(list);
        int kind = (int) g.range(0, 4);
        if (kind == 0) list.push_back(m);
        else if (kind == 1) const_cast<std::shared_ptr<BinaryColumnMetadata> &>(m)->rows += 1;
        else if (kind == 2) const_cast<std::shared_ptr<BinaryColumnMetadata> &>(m)->channels += 1;
        else if (kind == 3) const_cast<std::shared_ptr<BinaryColumnMetadata> &>(m)->purpose = m->purpose == 'I' ? 'N' : 'I';
        else if (m->purpose != 'L') const_cast<std::shared_ptr<BinaryColumnMetadata> &>(m)->columns += 1;
        else const_cast<std::shared_ptr<BinaryColumnMetadata> &>(m)->rows += 2;
        bool refused = false;
        try {
            BinaryDataSet set(w.set("d"), gm, em);
            while (set.nextRecord()) {}
        } catch (std::exception &) { refused = true; }
        vf::check(refused, "mismatch", to_string(kind));
        vf::nontrivial(s.text + to_string(kind));
    });

    vf::section("answers", 110, 2000, [] {
        auto &g = rng();
        World w("w");
        auto s = plain(some(true, 10));
        make(w, "d", s);
        task(w, "t", "d");
        auto o = plain(other(s, false));
        make(w, "o", o);
        auto gm = given_of(w.set("d"));
        string set = g.chance(0.3) ? "d" : "o";
        auto &asked = set == "d" ? s : o;
        struct Answers { vector<vector<string>> typed, stored; };
        // what the model says of questions encoded as the training data
        size_t outputs = s.of("expected").size();
        vector<vector<vector<string>>> wanted(asked.records.size());
        auto told = run(w, [&] {
            auto nn = loadNeuralNetworkForTraining("t", "../happyml_repo/tasks/");
            BinaryDatasetReader reader(w.set("d"));
            auto decoders = build_expected_decoders(false, reader);
            auto em = expected_of(w.set("d"));
            auto given = s.of("given");
            std::ostringstream out;
            for (auto &r: asked.records) {
                vector<std::shared_ptr<BaseTensor>> in;
                for (size_t k = 0; k < given.size(); k++) {
                    bool known;
                    auto v = encoded(*given[k], r, *gm[k], known);
                    auto &m = *gm[k];
                    vector<vector<vector<float>>> t(m.channels, vector<vector<float>>(m.rows, vector<float>(m.columns)));
                    size_t at = 0;
                    for (auto &a: t) for (auto &b: a) for (auto &x: b) x = v[at++];
                    in.push_back(tensor(t));
                }
                auto p = nn->predict(in);
                size_t height = 0;
                vector<vector<string>> columns;
                for (size_t i = 0; i < p.size(); i++) {
                    vector<string> column;
                    if (decoders[i]->isText()) {
                        // ties may be decided either way
                        for (size_t h = 0; h < p[i]->rowCount(); h++) {
                            vector<float> v;
                            for (size_t k = 0; k < p[i]->columnCount(); k++) v.push_back(p[i]->getValue(h, k, 0));
                            size_t best = std::max_element(v.begin(), v.end()) - v.begin();
                            bool close = false;
                            for (size_t k = 0; k < v.size(); k++) close = close || (k != best && v[best] - v[k] < 2e-4);
                            column.push_back(close ? "?" : em[i]->ordered_labels[best]);
                        }
                    } else column = record_to_strings(decoders[i], p[i]);
                    height = std::max(height, column.size());
                    columns.push_back(column);
                }
                for (size_t h = 0; h < height; h++) {
                    for (auto &c: columns) out << (h < c.size() ? ds::trim(c[h]) : "") << "|";
                    out << "\n";
                }
                out << "\x01\n";
            }
            vf::writeFile(w.dir + "/../told", out.str());
            return true;
        });
        if (!vf::check(told.ok, "answers:model", told.how + told.err)) return;
        std::istringstream in(vf::readFile(w.dir + "/../told"));
        string line;
        for (size_t i = 0; i < wanted.size(); i++)
            while (std::getline(in, line) && line != "\x01") {
                auto c = cells(line);
                c.pop_back();
                wanted[i].push_back(c);
            }
        auto agree = [&](const vector<vector<string>> &got, const vector<vector<string>> &want) {
            if (got.size() < want.size()) return false;
            for (size_t i = 0; i < want.size(); i++)
                for (size_t k = 0; k < outputs; k++)
                    if (want[i][k] != "?" && (got[i].size() < outputs || !same_cell(got[i][k], want[i][k]))) return false;
            return true;
        };
        // typed
        size_t index = (size_t) g.range(0, (long long) asked.records.size() - 1);
        auto typed = run(w, [&] {
            auto r = ExecuteTaskStatement("t", "", "", question(asked, asked.records[index])).execute(std::make_shared<ExecutionContext>());
            return r->isSuccessful();
        });
        vf::check(typed.ok && typed.done, "answers:typed failed", typed.how + typed.out + typed.err);
        auto got = results(typed.out, 1);
        vf::check(got.size() == wanted[index].size() && agree(got, wanted[index]), "answers:typed", "got\n" + show(got) + "instead of\n" + show(wanted[index]));
        vf::count("answers");
        // a dataset: a row for each distinct question, in any order
        auto stored = run(w, [&] {
            auto r = ExecuteTaskStatement("t", "", set, {}).execute(std::make_shared<ExecutionContext>());
            return r->isSuccessful();
        });
        vf::check(stored.ok && stored.done, "answers:dataset failed", stored.how + stored.out + stored.err);
        got = results(stored.out, 1);
        BinaryDatasetReader reader(w.set(set));
        size_t height = 1;
        for (size_t i = 0; i < wanted[0].size(); i++) height = std::max(height, wanted[0].size());
        for (auto c: s.of("given")) if (c->type == "number" || c->type == "image") height = std::max(height, c->rows);
        if (!vf::check(got.size() >= reader.rowCount(), "answers:rows", to_string(got.size()) + " lines for " + to_string(reader.rowCount()))) return;
        size_t each = got.size() / reader.rowCount();
        vf::check(each * reader.rowCount() == got.size() && each >= wanted[0].size(), "answers:lines", to_string(got.size()) + " lines for " + to_string(reader.rowCount()));
        // each stored row is one of the records; which one is told by the stored givens
        auto og = given_of(w.set(set));
        auto given = s.of("given");
        for (size_t i = 0; i < reader.rowCount(); i++) {
            auto row = reader.readRow(i).first;
            vector<vector<string>> lines(got.begin() + (long) (i * each), got.begin() + (long) ((i + 1) * each));
            bool found = false, matched = false;
            string d;
            for (size_t k = 0; k < asked.records.size(); k++) {
                bool same = true, known;
                for (size_t x = 0; x < row.size() && same; x++) same = near(flat(row[x]), encoded(*given[x], asked.records[k], *og[x], known), 2 * room(*og[x]));
                if (!same) continue;
                matched = true;
                found = found || agree(lines, wanted[k]);
                d += show(wanted[k]);
            }
            if (matched) vf::check(found, "answers:dataset", "got\n" + show(lines) + "instead of\n" + d);
            if (matched) vf::count("answers for datasets");
        }
        vf::nontrivial(s.text + asked.text);
    });

    return vf::main();
}
