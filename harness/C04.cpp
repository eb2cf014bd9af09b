// C04: delimited text comes back as the fields that were written, and foreign delimited text is read as what it says.
#include <bits/stdc++.h>
#include "lang/interpreter.hpp"
#include "common.hpp"

using namespace happyml;
using vf::rng;

typedef vector<string> Row;
typedef vector<Row> Table;

static string qt(const string &s) {
    ostringstream o;
    o << '[';
    for (unsigned char c: s) {
        if (c >= 32 && c < 127) o << c;
        else o << "\\x" << hex << setw(2) << setfill('0') << (int) c << dec;
    }
    o << ']';
    return o.str();
}

static string qt(const Row &r) {
    string s;
    for (auto &f: r) s += qt(f);
    return s;
}

static bool blank(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }

static string trimmed(string s) { // surrounding blanks are not kept
    while (!s.empty() && blank(s.back())) s.pop_back();
    size_t i = 0;
    while (i < s.size() && blank(s[i])) i++;
    return s.substr(i);
}

static Row trimmed(Row r) {
    for (auto &f: r) f = trimmed(f);
    return r;
}

static string word() {
    auto &g = rng();
    static const vector<string> parts{"a", "b", "Z", "0", "7", "12", "-3.5", "1e5", "nan", "inf", " ", " ", "\t", "\n", "\r", "\r\n", "\"", "\"\"", "'", ",", ":", ";", "|", "\\", "\\n", "/", "<", ">",
                                      "_", "~", "D", "N", "<_<", "<~D>", "<~N>", "<_", "<~", "<__", "<~D", "#", "=", "(", ")", "x", "word", "\xc3\xa9", "\xff", "\x01", "%", "$"};
    string s;
    for (long long n = g.chance(0.1) ? 0 : g.range(1, g.chance(0.1) ? 30 : 6); n > 0; n--) s += g.pick(parts);
    return s;
}

static string field() {
    auto &g = rng();
    switch (g.range(0, 9)) {
        case 0: return "";
        case 1: return to_string(g.range(-1000, 1000));
        case 2: return to_string(g.real(-100, 100));
        case 3: return to_string(g.range(0, 23)) + g.pick(vector<string>{":", ",", ";", "|", "\t", "/", " "}) + to_string(g.range(0, 59)); // a number, then more
        case 4: return "\"" + word() + "\"";
        default: return word();
    }
}

static char delimiter() { return rng().pick(vector<char>{',', ',', ':', '\t', ';', '|', ' '}); }

static Table anyTable(bool one_blank_ok) {
    auto &g = rng();
    Table t;
    size_t cols = (size_t) vf::side(1, 5, 40);
    bool ragged = g.chance(0.2);
    for (long long n = vf::side(0, 8, 100); n > 0; n--) {
        Row r;
        for (size_t c = ragged ? (size_t) g.range(1, 5) : cols; c > 0; c--) r.push_back(field());
        if (!one_blank_ok && r.size() == 1 && trimmed(r[0]).empty()) r[0] = "x";
        t.push_back(r);
    }
    return t;
}

static Table readAll(const string &path, char d, bool skip) {
    DelimitedTextFileReader reader(path, d, skip);
    Table t;
    while (reader.hasNext()) {
        t.push_back(reader.nextRecord());
        if (t.size() > 100000) break;
    }
    return t;
}

static void writeAll(const string &path, char d, const Table &t) {
    DelimitedTextFileWriter w(path, d);
    for (auto &r: t) w.writeRecord(r);
    w.close();
}

static void compare(const Table &want, const Table &got, const string &key, const string &what) {
    if (!vf::check(want.size() == got.size(), key + "-records", to_string(want.size()) + " records became " + to_string(got.size()) + " " + what)) return;
    for (size_t i = 0; i < want.size(); i++) {
        vf::count("records_compared");
        vf::count("fields_compared", (long long) want[i].size());
        if (!vf::check(want[i] == got[i], key, "record " + to_string(i) + " " + qt(want[i]) + " became " + qt(got[i]) + " " + what)) return;
    }
}

static string show(const Table &t) {
    string s;
    for (auto &r: t) s += qt(r) + "/";
    return s.substr(0, 500);
}

// the same table as another program would write it
static string foreign(const Table &t, char d, string &style) {
    auto &g = rng();
    string eol = g.chance(0.4) ? "\r\n" : "\n", text;
    bool always = g.chance(0.3), last = g.chance(0.7);
    style = string(eol == "\n" ? "LF" : "CRLF") + (always ? " all quoted" : "") + (last ? "" : " no final line end");
    for (size_t i = 0; i < t.size(); i++) {
        for (size_t j = 0; j < t[i].size(); j++) {
            auto &f = t[i][j];
            bool need = f.find_first_of(string("\"\n\r") + d) != string::npos;
            if (j) text += d;
            if (need || always || g.chance(0.1)) {
                text += '"';
                for (char c: f) text += c == '"' ? string("\"\"") : string(1, c);
                text += '"';
            } else text += f;
        }
        if (i + 1 < t.size() || last) text += eol;
    }
    return text;
}

static bool escapes(const string &s) { // text that already means something else to the reader
    return s.find("<_<") != string::npos || s.find("<~D>") != string::npos || s.find("<~N>") != string::npos || s.find("<__") != string::npos;
}

int main() {
    vf::rule("A case is a distinct table (or text) that was written and read back and compared field by field.");
    vf::section("escape", 20000, 600000, [] {
        auto &g = rng();
        char d = delimiter();
        string s = word() + (g.chance(0.3) ? word() : "");
        vf::probe("escape");
        string e = TextEncoderDecoder::encodeString(s, d), back = TextEncoderDecoder::decodeString(e, d);
        vf::check(back == s, "escape", qt(s) + " was escaped as " + qt(e) + " which reads " + qt(back));
        vf::check(e.find(d) == string::npos && e.find('\n') == string::npos, "escape-leaves", qt(s) + " was escaped as " + qt(e));
        if (!escapes(s)) {
            string same = TextEncoderDecoder::decodeString(s, d);
            vf::check(same == s, "plain-changed", qt(s) + " has no escapes but was read as " + qt(same));
            vf::count("plain");
        }
        vf::nontrivial(s + d);
        vf::count("escaped", e != s);
    });
    vf::section("table", 4000, 120000, [] {
        auto &g = rng();
        auto t = anyTable(true);
        char d = delimiter();
        bool skip = g.chance(0.3);
        string path = vf::freshDir() + "/t.csv", what = string("with delimiter ") + qt(string(1, d)) + (skip ? " skipping the header: " : ": ") + show(t);
        vf::probe("write");
        writeAll(path, d, t);
        vf::probe("read");
        auto got = readAll(path, d, skip);
        Table want;
        for (size_t i = skip; i < t.size(); i++) want.push_back(trimmed(t[i]));
        compare(want, got, "table", what);
        if (g.chance(0.3)) { // and again
            writeAll(path, d, got);
            compare(want, readAll(path, d, false), "rewritten", what);
        }
        vf::nontrivial(what);
        vf::sample(what);
        if (skip && !t.empty()) vf::count("headers_skipped");
    });
    vf::section("foreign", 4000, 120000, [] {
        auto &g = rng();
        auto t = anyTable(false);
        for (auto &r: t) for (auto &f: r) while (escapes(f)) f = field();
        for (auto &r: t) if (r.size() == 1 && trimmed(r[0]).empty()) r[0] = "x";
        char d = delimiter();
        if (d == ' ') d = ',';
        bool skip = g.chance(0.3);
        if (skip && !t.empty()) for (auto &f: t[0]) while (f.find('\n') != string::npos) f = field(); // a header is one line
        string path = vf::freshDir() + "/t.csv", style, text = foreign(t, d, style), what = "from " + style + " " + qt(text).substr(0, 500);
        vf::writeFile(path, text);
        vf::probe("read");
        Table want;
        for (size_t i = skip; i < t.size(); i++) want.push_back(trimmed(t[i]));
        compare(want, readAll(path, d, skip), "foreign", what);
        vf::nontrivial(text);
        vf::count("foreign:" + style.substr(0, 2));
    });
    vf::section("unclosed", 200, 5000, [] { // a quote that is never closed is an error
        auto &g = rng();
        string path = vf::freshDir() + "/t.csv";
        string text = "a,b\n" + to_string(g.range(0, 9)) + ",\"never" + (g.chance(0.5) ? "\nclosed\n" : ",x");
        vf::writeFile(path, text);
        bool threw = false;
        try {
            readAll(path, ',', false);
        } catch (exception &) {
            threw = true;
        }
        vf::check(threw, "unclosed", qt(text) + " was read");
        vf::nontrivial(text);
    });
    vf::section("folder", 400, 8000, [] { // a folder of files reads as all of their records, each without its header
        auto &g = rng();
        string dir = vf::freshDir();
        bool skip = g.chance(0.5);
        map<string, int> want;
        long long files = g.range(1, 6);
        string what = to_string(files) + " files:";
        for (long long i = 0; i < files; i++) {
            auto t = anyTable(false);
            if (g.chance(0.3)) t.clear();
            string path = dir + "/" + to_string(g.range(0, 99)) + "_" + to_string(i) + ".csv";
            auto with = t;
            if (skip) with.insert(with.begin(), Row{"header", "row"});
            writeAll(path, ',', with);
            for (auto &r: t) want[qt(trimmed(r))]++;
            what += " " + to_string(t.size());
            vf::count("folder_empty_files", t.empty());
        }
        map<string, int> got;
        vf::probe("read-folder");
        for (auto &r: readAll(dir, ',', skip)) got[qt(r)]++;
        vf::check(want == got, "folder", "the records of a folder were not each read once: " + what + (skip ? " with headers" : ""));
        vf::nontrivial(what + to_string(skip) + to_string(vf::st().index));
        vf::count("folders");
    });
    vf::section("tsv", 800, 20000, [] {
        auto t = anyTable(false);
        string dir = vf::freshDir(), what = "from a tab separated file: " + show(t), style;
        bool ours = rng().chance(0.5);
        if (ours) writeAll(dir + "/t.tsv", '\t', t);
        else {
            for (auto &r: t) for (auto &f: r) while (escapes(f)) f = field();
            for (auto &r: t) if (r.size() == 1 && trimmed(r[0]).empty()) r[0] = "x";
            vf::writeFile(dir + "/t.tsv", foreign(t, '\t', style));
        }
        string before = vf::readFile(dir + "/t.tsv");
        vf::probe("tsv");
        bool ok = convert_tsv_to_csv(dir + "/t.tsv", dir + "/t.csv");
        Table want;
        for (auto &r: t) want.push_back(trimmed(r));
        if (t.empty()) vf::count("tsv_empty"); // may be refused
        else if (vf::check(ok, "tsv-failed", "not converted " + what)) compare(want, readAll(dir + "/t.csv", ',', false), "tsv", what);
        vf::check(vf::readFile(dir + "/t.tsv") == before, "tsv-source", "the source was changed " + what);
        vf::check(!convert_tsv_to_csv(dir + "/none.tsv", dir + "/u.csv"), "tsv-missing", "a missing file was converted");
        vf::nontrivial(what);
        vf::count("tsv_converted");
    });
    vf::section("txt", 800, 20000, [] { // every word of a text stays, once and in order, in cells of the size asked for
        auto &g = rng();
        string text, dir = vf::freshDir();
        for (long long n = vf::side(0, 80, 1500); n > 0; n--) {
            for (long long k = g.chance(0.03) ? g.range(10, 60) : g.range(1, 8); k > 0; k--) text += (char) ('a' + g.range(0, 25));
            if (g.chance(0.15)) text += g.pick(vector<string>{".", ".", ",", ".\"", "!", "\"", "?\n", ".\n"});
            text += g.pick(vector<string>{" ", " ", " ", " ", "\n", "  ", "\t"});
        }
        int limit = (int) g.range(8, 120);
        vf::writeFile(dir + "/t.txt", text);
        vf::probe("txt");
        bool ok = convert_txt_to_csv(dir + "/t.txt", dir + "/t.csv", limit);
        if (!vf::check(ok, "txt-failed", "not converted")) return;
        vector<string> want, got;
        size_t longest = 0;
        istringstream in(text);
        for (string w; in >> w;) want.push_back(w);
        { // a piece between spaces is never split
            istringstream pieces(text);
            for (string w; getline(pieces, w, ' ');) longest = max(longest, w.size());
        }
        auto cells = readAll(dir + "/t.csv", ',', false);
        string bad;
        for (auto &r: cells) {
            if (r.size() != 1) bad = "a record has " + to_string(r.size()) + " fields";
            else {
                if (r[0].size() > max((size_t) limit, longest)) bad = "a cell has " + to_string(r[0].size()) + " characters";
                if (r[0].empty()) bad = "a cell is empty";
                istringstream cell(r[0]);
                for (string w; cell >> w;) got.push_back(w);
            }
        }
        if (want.empty()) bad = "";
        vf::check(bad.empty(), "txt-cells", bad + " with limit " + to_string(limit) + " of " + qt(text).substr(0, 300));
        size_t i = 0;
        while (i < min(want.size(), got.size()) && want[i] == got[i]) i++;
        vf::check(want == got, "txt-words", "word " + to_string(i) + " is " + (i < got.size() ? got[i] : "missing") + " instead of " + (i < want.size() ? want[i] : "nothing") + " with limit " + to_string(limit) + " of " + qt(text).substr(0, 300));
        vf::nontrivial(text);
        vf::count("txt_cells", (long long) cells.size());
    });
    vf::section("reorder", 1500, 40000, [] {
        auto &g = rng();
        size_t cols = (size_t) vf::side(1, 8, 30);
        Table t;
        for (long long n = vf::side(0, 8, 100); n > 0; n--) {
            Row r;
            for (size_t c = 0; c < cols; c++) r.push_back(field());
            if (cols == 1 && trimmed(r[0]).empty()) r[0] = "x";
            t.push_back(r);
        }
        vector<shared_ptr<ColumnGroup>> given, expected;
        vector<size_t> picked[2];
        string what = "columns";
        for (size_t c = 0; c < cols;) {
            size_t w = (size_t) g.range(1, (long long) min<size_t>(3, cols - c));
            if (g.chance(0.8)) {
                bool e = g.chance(0.3);
                (e ? expected : given).push_back(make_shared<ColumnGroup>(c, c, w, e ? "expected" : "given", "label", "c" + to_string(c), 1, 1, 1));
                for (size_t i = 0; i < w; i++) picked[e].push_back(c + i);
                what += string(e ? " e" : " g") + to_string(c) + "+" + to_string(w);
            }
            c += w;
        }
        bool header = g.chance(0.5);
        string dir = vf::freshDir();
        writeAll(dir + "/a.csv", ',', t);
        bool short_row = !t.empty() && g.chance(0.1) && picked[0].size() + picked[1].size() && cols > 1;
        if (short_row) { // a record without all of its columns
            auto u = t;
            size_t i = (size_t) g.range(header && u.size() > 1, (long long) u.size() - 1), most = 0;
            for (auto &p: picked) for (auto c: p) most = max(most, c);
            u[i].resize(max<size_t>(most, 1));
            short_row = u[i].size() <= most && i >= header;
            writeAll(dir + "/a.csv", ',', u);
        }
        vf::probe("reorder");
        bool threw = false, any = false;
        try {
            any = update_column_positions(dir + "/a.csv", dir + "/b.csv", given, expected, header);
        } catch (exception &) {
            threw = true;
        }
        if (short_row) {
            vf::check(threw, "short-record", "a record without all of its columns was accepted: " + what);
            vf::count("short_records");
            return;
        }
        vf::check(!threw && any == (t.size() > header), "reorder-result", "said " + to_string(any) + " for " + to_string(t.size()) + " lines");
        Table want;
        for (size_t i = header; i < t.size(); i++) {
            Row r;
            for (auto &p: picked) for (auto c: p) r.push_back(trimmed(t[i][c]));
            if (r.empty()) r.push_back("");
            want.push_back(r);
        }
        compare(want, readAll(dir + "/b.csv", ',', false), "reorder", what + " of " + show(t));
        vf::nontrivial(what + show(t));
        vf::count("reordered");
    });
    for (auto c: {"escaped", "plain", "headers_skipped", "foreign:LF", "foreign:CR", "folders", "folder_empty_files", "tsv_converted", "txt_cells", "short_records", "reordered"}) vf::require(c, 20);
    return vf::main();
}
