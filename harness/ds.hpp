// Generated source files with declared columns, and what a dataset made from them must hold.
#pragma once
#include <bits/stdc++.h>
#include "common.hpp"

namespace ds {
    using vf::rng;
    using std::string;
    using std::to_string;
    using std::vector;

    struct Col {
        string use, type, name;
        size_t rows = 1, columns = 1, channels = 1, start = 0;
        size_t width() const { return rows * columns * channels; }
        vector<string> pool; // labels to choose from
        int style = 0;       // of numbers
        double a = 0, b = 1;
    };

    typedef vector<string> Record;

    struct Source {
        vector<Col> cols; // by position in the source
        size_t width = 0;
        vector<Record> records;
        bool header = false;
        string text; // as delimited text
        char delimiter = ',';

        vector<const Col *> of(const string &use) const {
            vector<const Col *> r;
            for (auto &c: cols) if (c.use == use) r.push_back(&c);
            return r;
        }
    };

    inline string trim(const string &s) {
        size_t a = 0, b = s.size();
        while (a < b && isspace((unsigned char) s[a])) a++;
        while (b > a && isspace((unsigned char) s[b - 1])) b--;
        return s.substr(a, b - a);
    }

    inline string quoteField(const string &s, char delimiter) {
        bool need = rng().chance(0.1);
        for (char c: s) if (c == delimiter || c == '"') need = true;
        if (!need) return s;
        string r = "\"";
        for (char c: s) {
            if (c == '"') r += '"';
            r += c;
        }
        return r + "\"";
    }

    inline string number_text(const Col &c) {
        auto &g = rng();
        char buf[64];
        switch (c.style) {
            case 0: return to_string(g.range(-5, 5));
            case 1: snprintf(buf, sizeof buf, "%.6g", g.real(c.a, c.b)); return buf;
            case 2: snprintf(buf, sizeof buf, "%.9g", g.real(c.a, c.b)); return buf;
            case 3: snprintf(buf, sizeof buf, "%g", c.a); return buf;                       // constant
            case 4: return to_string((long long) c.a + g.range(0, 20));                     // a small range far from zero
            case 5: return g.chance(0.2) ? "" : to_string(g.range(0, 1));                   // nothing is zero
            case 6: snprintf(buf, sizeof buf, "%.4e", g.real(-1, 1) * std::pow(10.0, (double) g.range(-12, 12))); return buf;
            default: snprintf(buf, sizeof buf, "%.3e", (double) g.range(1, 9) * 1e-17); return buf; // tiny ones
        }
    }

    inline vector<string> label_pool() {
        auto &g = rng();
        static const vector<string> odd{"a", "A", "b", "yes", "no", "1", "2", "1.0", "true", "false", "red, green", "the \"best\"", "two words", "x;y", "\xc3\xa9t\xc3\xa9", "a:b",
                                        "it's", "", "-", "None", "0", "10", "tab\there", "<b>", "_", "#tag", "a\\b", "nan"};
        vector<string> r;
        for (long long n = g.range(1, g.chance(0.1) ? 30 : 5); n > 0; n--) r.push_back(g.chance(0.5) ? g.pick(odd) : "label" + to_string(g.range(0, 50)));
        return r;
    }

    inline string cell(const Col &c) {
        auto &g = rng();
        string s;
        if (c.type == "number") s = number_text(c);
        else if (c.type == "label") s = g.pick(c.pool);
        else s = to_string(g.chance(0.2) ? (g.chance(0.5) ? 0 : 255) : g.range(0, 255));
        if (g.chance(0.03)) s = " " + s;
        if (g.chance(0.03)) s += " ";
        return s;
    }

    inline void render(Source &s) {
        auto &g = rng();
        bool crlf = g.chance(0.15);
        string eol = crlf ? "\r\n" : "\n";
        s.text.clear();
        if (s.header) {
            for (size_t i = 0; i < s.width; i++) s.text += (i ? string(1, s.delimiter) : "") + "column " + to_string(i);
            s.text += eol;
        }
        for (auto &r: s.records) {
            for (size_t i = 0; i < r.size(); i++) s.text += (i ? string(1, s.delimiter) : "") + quoteField(r[i], s.delimiter);
            s.text += eol;
        }
        if (!s.records.empty() && g.chance(0.3)) s.text.erase(s.text.size() - eol.size());
    }

    // limits keep datasets that are also trained small
    inline Source make(size_t max_records = 40, bool small = false, bool want_expected = false, size_t min_records = 1) {
        auto &g = rng();
        Source s;
        size_t ng = (size_t) vf::side(1, small ? 3 : 4, small ? 8 : 15), ne = (size_t) vf::side(want_expected ? 1 : 0, small ? 2 : 3, small ? 5 : 12);
        vector<string> uses;
        for (size_t i = 0; i < ng; i++) uses.push_back("given");
        for (size_t i = 0; i < ne; i++) uses.push_back("expected");
        g.shuffle(uses);
        size_t pos = g.chance(0.3) ? (size_t) g.range(1, 3) : 0;
        for (auto &u: uses) {
            Col c;
            c.use = u;
            c.type = g.pick(vector<string>{"number", "number", "label", "image"});
            c.name = g.chance(0.2) ? "Name" + to_string(s.cols.size()) : u.substr(0, 1) + to_string(s.cols.size());
            if (c.type == "label") {
                if (g.chance(0.2)) c.rows = (size_t) g.range(2, 3);
                c.pool = label_pool();
            } else if (c.type == "number") {
                if (g.chance(0.3)) c.columns = (size_t) vf::side(1, 4, 14);
                if (g.chance(0.2)) c.rows = (size_t) g.range(1, 3);
                if (g.chance(0.1)) c.channels = 2;
                c.style = (int) g.range(0, 7);
                double big = g.pick(vector<double>{1, 10, 1000, 1e6, 1e-3});
                c.a = g.real(-1, 1) * big;
                c.b = c.a + g.real(0.01, 3) * big;
                if (c.style == 4) c.a = std::floor(g.pick(vector<double>{1e3, 1e5, 1e6, -1e6}) * g.real(0.5, 1.5));
            } else {
                c.rows = (size_t) g.range(1, small ? 2 : 4);
                c.columns = (size_t) g.range(1, small ? 2 : 4);
                c.channels = g.chance(0.3) ? 3 : 1;
            }
            c.start = pos;
            pos += c.width();
            if (g.chance(0.2)) pos += (size_t) g.range(1, 2); // columns nobody asked for
            s.cols.push_back(c);
        }
        s.width = pos;
        s.header = g.chance(0.5);
        size_t n = (size_t) g.range((long long) min_records, (long long) std::max(min_records, max_records));
        for (size_t i = 0; i < n; i++) {
            Record r(s.width);
            for (auto &f: r) f = g.chance(0.5) ? "unused" : to_string(g.range(0, 3));
            for (auto &c: s.cols) for (size_t k = 0; k < c.width(); k++) r[c.start + k] = cell(c);
            if (!s.records.empty() && g.chance(0.25)) { // an earlier one again, some of it perhaps different
                Record o = g.pick(s.records);
                string keep = g.pick(vector<string>{"all", "given", "used"});
                for (auto &c: s.cols)
                    if (keep != "given" || c.use == "given")
                        for (size_t k = 0; k < c.width(); k++) r[c.start + k] = o[c.start + k];
                if (keep == "all") r = o;
            }
            // a record of nothing at all is a blank line
            bool blank = true;
            for (auto &c: s.cols) for (size_t k = 0; k < c.width(); k++) if (!trim(r[c.start + k]).empty()) blank = false;
            if (blank) for (auto &c: s.cols) if (c.type == "number") r[c.start] = "0";
            blank = true;
            for (auto &c: s.cols) for (size_t k = 0; k < c.width(); k++) if (!trim(r[c.start + k]).empty()) blank = false;
            if (!blank) s.records.push_back(r);
        }
        render(s);
        return s;
    }

    // what a cell says
    inline float number_of(const string &text) {
        string t = trim(text);
        return t.empty() ? 0.f : std::strtof(t.c_str(), nullptr);
    }

    inline string key_of(const Source &s, const Record &r, const string &use) {
        string k;
        for (auto c: s.of(use))
            for (size_t i = 0; i < c->width(); i++) {
                string t = trim(r[c->start + i]);
                if (c->type == "label") k += t + string("\0", 1);
                else {
                    float f = number_of(t);
                    k.append((const char *) &f, sizeof f);
                }
            }
        return k;
    }

    inline string statement(const Source &s, const string &name, const string &location) {
        string r = "create dataset " + name + (s.header ? " with header" : "");
        for (auto &c: s.cols)
            r += " with " + c.use + " " + c.type + " " + c.name + " (" + to_string(c.rows) + ", " + to_string(c.columns) + ", " + to_string(c.channels) + ") at " + to_string(c.start);
        return r + " using " + location;
    }

    inline std::map<string, string> tree(const string &dir) {
        std::map<string, string> r;
        if (!std::filesystem::exists(dir)) return r;
        for (auto &e: std::filesystem::recursive_directory_iterator(dir))
            r[e.path().string().substr(dir.size())] = e.is_directory() ? "<dir>" : vf::readFile(e.path().string());
        return r;
    }

    inline string difference(const std::map<string, string> &before, const std::map<string, string> &after) {
        string d;
        for (auto &[f, c]: before)
            if (!after.count(f)) d += " removed " + f;
            else if (after.at(f) != c) d += " changed " + f;
        for (auto &[f, c]: after) if (!before.count(f)) d += " left " + f;
        return d;
    }
}
