// C28: printing a dataset shows what it holds: the rows asked for, in their order, every value under its name.
#include <bits/stdc++.h>
#include "lang.hpp"

using namespace lang;

static vector<string> cells(const string &line) {
    vector<string> r{""};
    for (char c: line) {
        if (c == '|') r.emplace_back();
        else r.back() += c;
    }
    for (auto &c: r) c = ds::trim(c);
    return r;
}

static vector<vector<string>> lines(const string &out) {
    vector<vector<string>> r;
    std::istringstream in(out);
    string line;
    while (std::getline(in, line)) r.push_back(cells(line));
    return r;
}

static string show(const vector<vector<string>> &a) {
    string s;
    for (auto &r: a) {
        for (auto &c: r) s += "[" + c + "]";
        s += "\n";
    }
    return s;
}

// the numbers of a cell, and what is between them
static bool numbers(const string &cell, vector<double> &v, string &rest) {
    const char *p = cell.c_str();
    while (*p) {
        if (isdigit((unsigned char) *p) || ((*p == '-' || *p == '.') && (isdigit((unsigned char) p[1]) || p[1] == '.')) || !strncmp(p, "inf", 3) || !strncmp(p, "nan", 3) || !strncmp(p, "-inf", 4) || !strncmp(p, "-nan", 4)) {
            char *e;
            v.push_back(strtod(p, &e));
            if (e == p) return false;
            p = e;
            rest += '#';
        } else {
            if (*p != ' ') rest += *p;
            p++;
        }
    }
    return true;
}

struct Column {
    std::shared_ptr<BinaryColumnMetadata> m;
    const ds::Col *c;
};

// what a column of a row should look like
struct Shown {
    bool exact = false;
    vector<string> text;           // line by line
    vector<vector<double>> values; // line by line
    vector<double> tolerance;
    string layout;
};

static Shown expected(const Column &k, const std::shared_ptr<BaseTensor> &t, bool raw) {
    Shown s;
    auto &m = *k.m;
    if (m.purpose == 'L' && !raw) {
        s.exact = true;
        for (size_t r = 0; r < m.rows; r++) {
            size_t at = 0;
            for (size_t c = 1; c < m.columns; c++) if (t->getValue(r, c, 0) > t->getValue(r, at, 0)) at = c;
            s.text.push_back(ds::trim(m.ordered_labels.at(at)));
        }
        return s;
    }
    if (m.purpose == 'I' && !raw) {
        s.exact = true;
        for (auto &l: ImageDecoder().decodeImage(t)) s.text.push_back(ds::trim(l));
        return s;
    }
    for (size_t c = 0; c < m.columns; c++) {
        if (c) s.layout += ",";
        if (m.channels == 1) s.layout += "#";
        else {
            s.layout += "(";
            for (size_t x = 0; x < m.channels; x++) s.layout += x ? ",#" : "#";
            s.layout += ")";
        }
    }
    for (size_t r = 0; r < m.rows; r++) {
        vector<double> v;
        for (size_t c = 0; c < m.columns; c++)
            for (size_t x = 0; x < m.channels; x++) {
                double y = t->getValue(r, c, x);
                if (!raw && m.purpose == 'N') {
                    if (m.is_normalized) y = m.max_value == m.min_value ? y + m.min_value : y * ((double) m.max_value - m.min_value) + m.min_value;
                    if (m.is_standardized) y = y * (m.standard_deviation == 0 ? 1 : m.standard_deviation) + m.mean;
                }
                v.push_back(y);
            }
        s.values.push_back(v);
    }
    double big = std::fabs(m.mean);
    if (m.is_standardized) big += m.standard_deviation * std::max(std::fabs(m.max_value), std::fabs(m.min_value));
    else big += std::max(std::fabs(m.max_value), std::fabs(m.min_value));
    s.tolerance = {0.000501 + (raw ? 0 : 2e-6 * big), 2e-6};
    return s;
}

static bool agrees(const Shown &s, size_t height, const vector<vector<string>> &block, size_t column, string &why) {
    size_t n = s.exact ? s.text.size() : s.values.size();
    for (size_t h = 0; h < height; h++) {
        string got = column < block[h].size() ? block[h][column] : "(no column)";
        if (h >= n) {
            if (!got.empty()) { why = got + " instead of nothing"; return false; }
        } else if (s.exact) {
            if (got != s.text[h]) { why = got + " instead of " + s.text[h]; return false; }
        } else {
            vector<double> v;
            string rest;
            if (!numbers(got, v, rest) || rest != s.layout || v.size() != s.values[h].size()) { why = got + " is not like " + s.layout; return false; }
            for (size_t i = 0; i < v.size(); i++)
                if (!(std::fabs(v[i] - s.values[h][i]) <= s.tolerance[0] + s.tolerance[1] * std::fabs(s.values[h][i]))) {
                    why = got + " instead of " + to_string(s.values[h][i]);
                    return false;
                }
        }
    }
    return true;
}

int main() {
    vf::rule("A case is a distinct source, made into a dataset and printed whole and in part, raw and pretty.");
    vf::require("rows shown", 1000);
    vf::require("number columns", 100);
    vf::require("label columns", 100);
    vf::require("image columns", 50);
    vf::require("limits", 100);

    vf::section("print", 220, 4000, [] {
        auto &g = rng();
        World w("w");
        auto s = ds::make(g.chance(0.2) ? 40 : 8, false, false);
        while (s.records.empty()) s = ds::make(8);
        for (auto &c: s.cols) if (g.chance(0.2)) c.name += "_with_a_long_name";
        vf::writeFile(w.dir + "/data/s.csv", s.text);
        script(w, ds::statement(s, "d", "file://../data/s.csv") + "\n");
        if (!vf::check(vf::exists(w.set("d")), "print:no dataset", s.text)) return;
        BinaryDatasetReader reader(w.set("d"));
        vector<Column> columns;
        vector<string> header;
        auto em = reader.get_expected_metadata(), gm = reader.get_given_metadata();
        for (size_t i = 0; i < em.size(); i++) columns.push_back({em[i], s.of("expected")[i]});
        for (size_t i = 0; i < gm.size(); i++) columns.push_back({gm[i], s.of("given")[i]});
        for (auto &c: columns) header.push_back(c.c->name);
        auto before = w.tree();
        // several prints in one session
        struct Print { bool raw; int limit; };
        vector<Print> prints;
        for (size_t n = (size_t) g.range(1, 4); n > 0; n--) {
            Print p{g.chance(0.5), -1};
            if (g.chance(0.6)) p.limit = (int) g.range(0, (long long) reader.rowCount() + 2), vf::count("limits");
            prints.push_back(p);
        }
        bool spoken = g.chance(0.5);
        string text;
        for (auto &p: prints) text += string("print ") + (p.raw ? "raw" : "pretty") + " d" + (p.limit >= 0 ? " limit " + to_string(p.limit) : "") + "\n";
        auto x = spoken ? script(w, text) : run(w, [&] {
            for (auto &p: prints) PrintStatement("d", p.raw, p.limit).execute(std::make_shared<ExecutionContext>());
            return false;
        });
        if (!vf::check(x.ok, "print:failed", x.how + x.err)) return;
        vf::check(ds::difference(before, w.tree()).empty(), "print:changed something", ds::difference(before, w.tree()));
        auto got = lines(x.out);
        size_t at = 0;
        for (auto &p: prints) {
            size_t rows = p.limit < 0 ? reader.rowCount() : std::min(reader.rowCount(), (size_t) p.limit);
            // a header, unless there is nothing below it
            if (rows == 0) {
                bool spare = at < got.size() && got[at] == header && (at + 1 == got.size() || got[at + 1] == header);
                if (spare) at++;
                continue;
            }
            if (!vf::check(at < got.size() && got[at] == header, "print:header", "line " + to_string(at) + " of\n" + show(got) + " after " + text)) return;
            at++;
            for (size_t i = 0; i < rows; i++) {
                auto row = reader.readRow(i);
                vector<Shown> want;
                for (size_t k = 0; k < columns.size(); k++) want.push_back(expected(columns[k], k < em.size() ? row.second[k] : row.first[k - em.size()], p.raw));
                size_t height = 0;
                for (auto &k: want) height = std::max(height, k.exact ? k.text.size() : k.values.size());
                if (!vf::check(at + height <= got.size(), "print:rows missing", to_string(i) + " of " + to_string(rows) + " in\n" + show(got))) return;
                vector<vector<string>> block(got.begin() + (long) at, got.begin() + (long) (at + height));
                for (size_t k = 0; k < columns.size(); k++) {
                    string why;
                    bool ok = agrees(want[k], height, block, k, why);
                    vf::check(ok, string("print:") + (p.raw ? "raw " : "pretty ") + columns[k].c->type, why + " in row " + to_string(i) + "\n" + show(block));
                }
                at += height;
                vf::count("rows shown");
            }
        }
        vf::check(at == got.size(), "print:more than asked", to_string(got.size() - at) + " lines more in\n" + show(got) + " after " + text);
        for (auto &c: columns) vf::count(c.c->type + " columns");
        vf::nontrivial(s.text + text);
    });

    vf::section("no such dataset", 20, 100, [] {
        World w("w");
        auto x = script(w, string("print ") + (rng().chance(0.5) ? "raw" : "pretty") + " nothing\n");
        vf::check(x.ok && x.done == false, "print:no such dataset", x.how + x.err);
        vf::check(!vf::exists(w.set("nothing")) && w.tree().size() <= 2, "print:no such dataset made", "");
        vf::nontrivial("none");
    });
    return vf::main();
}
