// C05: sorting a text file loses, duplicates and alters nothing; removing duplicates keeps one of each; no other file is touched.
#include <bits/stdc++.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include "util/text_file_sorter.hpp"
#include "common.hpp"

using namespace happyml;
using vf::rng;
namespace fs = std::filesystem;
using std::string;
using std::to_string;
using std::vector;

static string line_text(int kind) {
    auto &g = rng();
    string s;
    switch (kind) {
        case 0: return to_string(g.range(0, 9));
        case 1: return to_string(g.range(-100000, 100000));
        case 2: { // any bytes but line feeds
            for (long long n = g.range(1, 12); n > 0; n--) {
                int c = (int) g.range(1, 255);
                s += (char) (c == '\n' ? ' ' : c);
            }
            return s;
        }
        case 3: return string((size_t) g.range(1, 4), 'a') + (g.chance(0.3) ? "\r" : "") + (g.chance(0.3) ? " " : "");
        case 4: return string((size_t) g.range(1, 20000), (char) ('a' + g.range(0, 2)));
        case 5: return string("k") + to_string(g.range(0, 5)) + "," + to_string(g.range(0, 3));
        case 6: return g.pick(vector<string>{" ", "\r", "\t", ",", "\"", "a", "A", "b", "\xff", "\x7f", "\x80", "a\x01", "a b"});
        default:
            for (long long n = g.range(1, 8); n > 0; n--) s += (char) ('a' + g.range(0, 3));
            return s;
    }
}

static vector<string> lines_of(const string &text) {
    vector<string> r;
    size_t i = 0;
    while (i < text.size()) {
        size_t e = text.find('\n', i);
        if (e == string::npos) e = text.size();
        r.push_back(text.substr(i, e - i));
        i = e + 1;
    }
    return r;
}

static std::map<string, string> tree(const string &dir) {
    std::map<string, string> r;
    for (auto &e: fs::recursive_directory_iterator(dir))
        r[e.path().string().substr(dir.size())] = e.is_directory() ? "<dir>" : vf::readFile(e.path().string());
    return r;
}

static string show(const string &s) {
    string r;
    for (unsigned char c: s.substr(0, 60)) {
        char b[8];
        if (c >= 32 && c < 127) r += (char) c;
        else {
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
    }
    return r;
}

struct Job {
    string text, source, result;
    bool header, dedupe;
    int chunk;
};

static string expected(const Job &j) {
    auto ls = lines_of(j.text);
    string out;
    if (j.header) {
        out += (ls.empty() ? string() : ls[0]) + "\n";
        if (!ls.empty()) ls.erase(ls.begin());
    }
    ls.erase(std::remove(ls.begin(), ls.end(), string()), ls.end()); // blank lines are not records
    std::sort(ls.begin(), ls.end());
    if (j.dedupe) ls.erase(std::unique(ls.begin(), ls.end()), ls.end());
    for (auto &l: ls) out += l + "\n";
    return out;
}

static string settings(const Job &j) {
    return "header=" + to_string(j.header) + " dedupe=" + to_string(j.dedupe) + " chunk=" + to_string(j.chunk) + " lines=" + to_string(lines_of(j.text).size())
           + (j.source == j.result ? " in place" : "");
}

// what the file holds against what it should hold, as a permutation and then byte for byte
static void judge(const Job &j, const string &got, const string &prefix) {
    string want = expected(j);
    vf::count("lines", (long long) lines_of(j.text).size());
    if (got == want) {
        vf::check(true, prefix + ":content", "");
        return;
    }
    auto a = lines_of(want), b = lines_of(got);
    string d = settings(j) + ", " + to_string(a.size()) + " lines expected, " + to_string(b.size()) + " found";
    if (j.header && (a.empty() || b.empty() || a[0] != b[0])) {
        vf::fail(prefix + ":header", d);
        return;
    }
    std::map<string, int> n;
    for (auto &x: a) n[x]++;
    for (auto &x: b) n[x]--;
    for (auto &[x, k]: n) {
        if (k > 0) {
            vf::fail(prefix + ":lost", d + ", lost: " + show(x));
            return;
        }
        if (k < 0) {
            vf::fail(prefix + ":extra", d + ", extra: " + show(x));
            return;
        }
    }
    vf::fail(prefix + (a == b ? ":ending" : ":order"), d);
}

static string make_text(long long n, int kind, bool header) {
    auto &g = rng();
    string t;
    bool crlf = g.chance(0.2);
    if (header && g.chance(0.95)) t += g.pick(vector<string>{"zz header", "", "0", "a,b,c", "~"}) + (crlf ? "\r\n" : "\n");
    vector<string> used;
    for (long long i = 0; i < n; i++) {
        if (g.chance(0.03)) t += g.chance(0.5) ? "\n" : "\n\n";
        string l = !used.empty() && g.chance(0.25) ? g.pick(used) : line_text(kind == 8 ? (int) g.range(0, 7) : kind);
        used.push_back(l);
        t += l + (crlf ? "\r\n" : "\n");
    }
    if (!t.empty() && g.chance(0.3)) t.pop_back();
    return t;
}

int main() {
    vf::rule("the output is the header (when declared) followed by the non-blank lines in byte order, each as often as in the source, or once when duplicates are removed");
    vf::rule("the source and every other file are as they were; no other file is left; failure is reported");

    vf::section("one file", 4000, 80000, []() {
        auto &g = rng();
        Job j;
        j.header = g.chance(0.5);
        j.dedupe = g.chance(0.5);
        long long n = g.chance(0.1) ? 0 : g.range(1, g.chance(0.2) ? 300 : 30);
        int kind = (int) g.range(0, 8);
        if (kind == 4) n = std::min(n, 20ll);
        j.text = make_text(n, kind, j.header);
        // around exact multiples of the number of lines
        long long m = std::max<long long>(1, n);
        j.chunk = (int) g.pick(vector<long long>{1, 2, 3, m, m + 1, std::max(1ll, m - 1), std::max(1ll, m / 2), g.range(1, 50), 10000});
        string d = "d/sub";
        vf::freshDir(d.c_str());
        j.source = d + "/" + g.pick(vector<string>{"in.txt", "chunk_1.txt", "a file.csv", "x"});
        j.result = g.chance(0.2) ? j.source : d + "/" + g.pick(vector<string>{"out.txt", "in.txt.sorted", "chunk_0.txt", "y"});
        if (j.result == j.source) vf::count("in place");
        // other people's files, named like ours might be
        for (auto &name: {"chunk_0.txt", "chunk_1.txt", "chunk_2.txt", "chunk_10.txt", "in", "out", "out.txt.tmp", "in.txt.tmp", "temp.txt", "in.txt.chunk", "out.txt.chunk"})
            if (g.chance(0.5)) vf::writeFile(d + "/" + name, string("precious ") + name + "\n");
        if (g.chance(0.3)) vf::writeFile(j.result, "old content that is longer than anything\nzzz\n");
        vf::writeFile(j.source, j.text);
        auto before = tree("d");
        vf::probe("sort");
        bool ok = g.chance(0.2) && j.chunk == 10000 && j.dedupe ? FileSorter::sort(j.source, j.result, j.header) : FileSorter::sort(j.source, j.result, j.header, j.chunk, j.dedupe);
        vf::check(ok, "sort:refused", settings(j));
        auto after = tree("d");
        judge(j, after[j.result.substr(1)], "sort");
        before.erase(j.result.substr(1));
        after.erase(j.result.substr(1));
        string diff;
        for (auto &[f, c]: before)
            if (!after.count(f)) diff += " removed " + f;
            else if (after[f] != c) diff += " changed " + f;
        for (auto &[f, c]: after)
            if (!before.count(f)) diff += " left behind " + f;
        vf::check(diff.empty(), "sort:other files", settings(j) + diff);
        auto ls = lines_of(j.text);
        if ((int) ls.size() > j.chunk) vf::count("more than one chunk");
        if (j.dedupe && std::set<string>(ls.begin(), ls.end()).size() < ls.size()) vf::count("duplicates removed");
        if (!j.dedupe && std::set<string>(ls.begin(), ls.end()).size() < ls.size()) vf::count("duplicates kept");
        vf::nontrivial(j.text + settings(j));
    });

    vf::section("many chunks", 60, 600, []() {
        auto &g = rng();
        Job j;
        j.header = g.chance(0.5);
        j.dedupe = g.chance(0.5);
        // around what a merge might take at once, squares of it included
        long long chunks = g.pick(vector<long long>{63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 512, 700, 1025, g.range(60, 1500)});
        if (g.chance(0.06)) chunks = g.range(4000, 4300);
        j.chunk = (int) g.pick(vector<long long>{1, 1, 2, 3});
        long long n = chunks * j.chunk;
        string t;
        if (j.header) t = "header\n";
        long long distinct = g.chance(0.5) ? 1000000 : g.range(1, 2000);
        for (long long i = 0; i < n; i++) t += to_string(g.range(0, distinct)) + "\n";
        j.text = t;
        vf::freshDir("m");
        j.source = "m/in.txt";
        j.result = "m/out.txt";
        vf::writeFile(j.source, j.text);
        long long limit = g.pick(vector<long long>{80, 100, 256, 1024, 20000}); // open files allowed; 1024 is usual
        vf::probe("many chunks");
        auto r = vf::isolated([&]() {
            struct rlimit l{(rlim_t) limit, (rlim_t) limit};
            setrlimit(RLIMIT_NOFILE, &l);
            return string(FileSorter::sort(j.source, j.result, j.header, j.chunk, j.dedupe) ? "1" : "0");
        }, 60);
        if (!vf::check(r.exited && r.code == 0 && !r.timed_out, "many:crash", settings(j) + " " + r.err.substr(0, 300))) return;
        vf::check(r.out == "1", "many:refused", settings(j) + " open files " + to_string(limit));
        judge(j, vf::readFile(j.result), "many");
        vf::check(tree("m").size() == 2, "many:other files", settings(j) + " open files " + to_string(limit));
        vf::check(vf::readFile(j.source) == j.text, "many:source changed", settings(j));
        if (chunks > limit) vf::count("more chunks than open files");
        vf::count("chunks", chunks);
        vf::nontrivial(j.text + settings(j));
    });

    // files named without a folder, and folders that cannot be written: as a user who can write nowhere else
    vf::section("without privileges", 160, 2000, []() {
        auto &g = rng();
        Job j;
        j.header = g.chance(0.5);
        j.dedupe = g.chance(0.5);
        j.chunk = (int) g.range(1, 10);
        j.text = make_text(g.range(1, 30), (int) g.range(0, 3), j.header);
        vf::freshDir("u/here");
        vf::freshDir("u/locked");
        chmod("u/here", 0777);
        chmod("u/locked", 0755);
        int what = (int) g.range(0, 4);
        // 0 bare names; 1 dotted; 2 source in a read-only folder; 3 result in a read-only folder; 4 missing source
        j.source = what == 0 ? "in.txt" : what == 1 ? "./in.txt" : what == 2 ? "../locked/in.txt" : what == 3 ? "in.txt" : "nothing.txt";
        j.result = what == 0 ? "out.txt" : what == 1 ? "./out.txt" : what == 3 ? "../locked/out.txt" : "out.txt";
        if (what != 4) {
            string p = "u/here/" + j.source;
            vf::writeFile(p, j.text);
            chmod(p.c_str(), 0644);
        }
        auto before = tree("u");
        vf::probe("unprivileged");
        auto r = vf::isolated([&]() {
            if (chdir("u/here") != 0 || setgid(65534) != 0 || setuid(65534) != 0) return string("setup");
            string o = FileSorter::sort(j.source, j.result, j.header, j.chunk, j.dedupe) ? "1" : "0";
            return o;
        }, 60);
        string d = settings(j) + " " + j.source + " -> " + j.result;
        if (!vf::check(r.exited && r.code == 0 && !r.timed_out, "unprivileged:crash", d + " " + r.err.substr(0, 300))) return;
        if (r.out == "setup") {
            vf::count("could not drop privileges");
            return;
        }
        vf::count("kind " + to_string(what));
        auto after = tree("u");
        if (what <= 2) {
            vf::check(r.out == "1", "unprivileged:refused", d);
            judge(j, vf::readFile("u/here/" + j.result), "unprivileged");
            after.erase("/here/" + fs::path(j.result).filename().string());
            vf::check(after == before, "unprivileged:other files", d);
        } else {
            vf::check(r.out == "0", "unprivileged:failure not reported", d);
            vf::check(after == before, "unprivileged:other files after a failure", d);
        }
        vf::nontrivial(j.text + d);
    });
    vf::require("more than one chunk", 200);
    vf::require("in place", 50);
    vf::require("duplicates removed", 100);
    vf::require("duplicates kept", 100);
    vf::require("more chunks than open files", 5);
    return vf::main();
}
