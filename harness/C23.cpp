// C23: token, one-hot and positional encodings are exact.
#include <bits/stdc++.h>
#include "util/text_embedder.hpp"
#include "types/trie.hpp"
#include "common.hpp"

using namespace happyml;
using vf::rng;

static string someText(size_t most) {
    auto &g = rng();
    string s;
    int style = (int) g.range(0, 4);
    for (long long n = g.range(0, (long long) most); n > 0; n--) {
        if (style == 0) s += (char) g.range(0, 255);
        else if (style == 1) s += (char) g.range('a', 'c');
        else if (style == 2) s += g.pick(vector<string>{"word", "3.14", ".", "...", " ", "  ", "\n", "\r\n", "\t", "!", "a.b", "7.", ".5", "\xc3\xa9", "\xff", "don't", "x_y", string(1, '\0'), "-", "\r", "\v"});
        else if (style == 3) s += " \n\t\r"[g.range(0, 3)];
        else s += (char) g.range(32, 126);
    }
    return s;
}

static string hex(const string &s) {
    string r;
    char b[8];
    for (unsigned char c: s) snprintf(b, sizeof b, c >= 32 && c < 127 ? "%c" : "\\x%02x", c), r += b;
    return r;
}

static string hex(const vector<string> &v) {
    string r;
    for (auto &s: v) r += "[" + hex(s) + "]";
    return r;
}

static bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

static bool printable(char c) { return c >= 32 && c < 127; }

static bool alnum(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }

// What is left of a text: carriage returns and repeated blanks are dropped, other unprintable bytes all look the same.
static string normalised(const string &t) {
    string r;
    char last = 0;
    for (char c: t) {
        if (c == '\r') continue;
        if (!(space(c) && c == last)) r += space(c) || printable(c) ? c : (char) 254;
        last = c;
    }
    return r;
}

static string tokensWrong(const string &t, const vector<string> &tokens) {
    string all;
    for (auto &x: tokens) all += x;
    if (all != normalised(t)) return "the tokens are [" + hex(all) + "] together, instead of [" + hex(normalised(t)) + "]";
    char before = 0; // the last character of the token before
    for (auto &x: tokens) {
        if (x.empty()) return "an empty token";
        for (size_t i = 0; i < x.size(); i++) {
            char prev = i ? x[i - 1] : before;
            if (space(x[i]) && i) return "a blank inside the token " + hex(x);
            bool symbol = printable(x[i]) && !space(x[i]) && !alnum(x[i]);
            bool point = x[i] == '.' && prev >= '0' && prev <= '9';
            if (symbol && !point && x.size() > 1) return "a symbol inside the token " + hex(x);
        }
        before = x.back();
    }
    for (size_t i = 1; i < tokens.size(); i++) { // nothing is taken apart that belongs together
        char a = tokens[i - 1].back(), b = tokens[i][0];
        auto part = [](char c) { return alnum(c) || c == (char) 254; };
        if (part(a) && part(b)) return "a word was split between " + hex(tokens[i - 1]) + " and " + hex(tokens[i]);
        if (space(a) && part(b)) return "a word was split from its blank";
    }
    return "";
}

int main() {
    vf::rule("A case is a distinct text, code sequence, embedding or set of words.");

    vf::section("tokens", 3000, 150000, [] {
        auto &g = rng();
        string t = someText(g.chance(0.1) ? 400 : 40);
        vf::probe("tokens");
        auto tokens = string_to_tokens(t);
        string bad = tokensWrong(t, tokens);
        vf::check(bad.empty(), "tokens", bad + " for [" + hex(t) + "]: " + hex(tokens));
        // the same characters one after another
        vector<string> streamed;
        string token;
        char last = 0;
        for (char c: t) append_character(c, last, token, [&](const string &x) { streamed.push_back(x); });
        if (!token.empty()) streamed.push_back(token);
        vf::check(streamed == tokens, "tokens:streamed", hex(streamed) + " instead of " + hex(tokens));
        vf::check(string_to_tokens(normalised(t)) == tokens || t.find('\r') != string::npos || normalised(t) != t, "tokens:again", hex(t));
        vf::count("tokens", (long long) tokens.size());
        vf::nontrivial(t);
    });

    vf::section("token-files", 150, 3000, [] {
        auto &g = rng();
        string t;
        size_t size = g.chance(0.5) ? (size_t) g.range(0, 500) : (size_t) (32 * 1024 * g.range(1, 3) + g.range(-3, 3));
        while (t.size() < size) t += someText(60) + (g.chance(0.02) ? "\n" : "");
        if (g.chance(0.8)) t.resize(size);
        vf::writeFile("t.txt", t);
        vf::probe("token-files");
        auto tokens = load_file_to_tokens("t.txt");
        vf::check(tokens == string_to_tokens(t), "token-files", to_string(t.size()) + " bytes");
        auto lines = load_file_to_lines("t.txt");
        vector<string> want;
        stringstream ss(t);
        for (string l; getline(ss, l);) {
            for (char &c: l) if (!printable(c)) c = (char) 254;
            want.push_back(l + "\n");
        }
        vf::check(lines == want, "line-files", to_string(lines.size()) + " lines instead of " + to_string(want.size()));
        vf::nontrivial(to_string(t.size()) + t.substr(0, 60));
    });

    vf::section("one-hot", 1500, 60000, [] {
        auto &g = rng();
        int kind = (int) g.range(0, 3);
        string key = to_string(kind);
        auto only = [&](const vector<float> &v, long long at, size_t size, const string &what) { // a single one, or none
            if (!vf::check(v.size() == size, "one-hot:size", what + ": " + to_string(v.size()) + " instead of " + to_string(size))) return;
            for (size_t i = 0; i < v.size(); i++) vf::check(v[i] == ((long long) i == at ? 1.f : 0.f), "one-hot:" + to_string(kind), what + ": " + to_string(v[i]) + " at " + to_string(i));
        };
        vf::probe("one-hot");
        if (kind == 0) {
            size_t largest = (size_t) (g.chance(0.5) ? g.range(1, 300) : 257);
            vector<u16string> tokens;
            for (long long n = vf::side(0, 5, 20); n > 0; n--) {
                u16string t;
                for (long long k = g.range(0, 5); k > 0; k--) t += (char16_t) (g.chance(0.3) ? (long long) largest + g.range(-1, 1) : g.chance(0.1) ? g.range(0, 65535) : g.range(0, (long long) largest));
                tokens.push_back(t);
            }
            auto e = one_hot_encode_bpe_tokens(tokens, largest);
            size_t at = 0;
            for (auto &t: tokens)
                for (auto c: t) {
                    key += to_string((unsigned) c) + ",";
                    if (!vf::check(at < e.size(), "one-hot:count", to_string(e.size()))) return;
                    only(e[at++], (size_t) c < largest ? (long long) c : -1, largest, "code " + to_string((unsigned) c) + " of " + to_string(largest));
                }
            vf::check(at == e.size(), "one-hot:count", to_string(e.size()));
        } else if (kind == 1) {
            vector<string> tokens;
            for (long long n = vf::side(0, 5, 40); n > 0; n--) tokens.push_back(someText(6));
            auto e = one_hot_encode_characters(tokens);
            size_t at = 0;
            for (auto &t: tokens)
                for (unsigned char c: t) {
                    key += to_string(c) + ",";
                    if (!vf::check(at < e.size(), "one-hot:count", to_string(e.size()))) return;
                    only(e[at], c < e[at].size() ? c : -1, e[at].size(), "character " + to_string(c));
                    vf::check(e[at].size() >= 255 && e[at].size() <= 256, "one-hot:size", to_string(e[at].size()));
                    at++;
                }
            vf::check(at == e.size(), "one-hot:count", to_string(e.size()));
        } else if (kind == 2) {
            unordered_map<string, int> vocabulary;
            vector<string> tokens;
            for (long long n = vf::side(0, 12, 120); n > 0; n--) {
                string w = someText(4);
                if (!vocabulary.count(w)) vocabulary.emplace(w, (int) vocabulary.size());
                tokens.push_back(g.chance(0.2) ? someText(4) : w);
            }
            auto e = one_hot_encode_words(tokens, vocabulary);
            if (!vf::check(e.size() == tokens.size(), "one-hot:count", to_string(e.size()))) return;
            for (size_t i = 0; i < tokens.size(); i++) {
                only(e[i], vocabulary.count(tokens[i]) ? vocabulary[tokens[i]] : -1, vocabulary.size(), "word " + hex(tokens[i]));
                key += tokens[i] + ",";
            }
        } else {
            size_t width = (size_t) vf::side(1, 5, 40), target = (size_t) vf::side(0, 8, 60);
            vector<vector<float>> tokens;
            for (long long n = vf::side(0, 8, 60); n > 0; n--) {
                tokens.emplace_back();
                for (size_t i = 0; i < width; i++) tokens.back().push_back((float) g.real(-1, 1));
            }
            auto before = tokens;
            pad_or_truncate_tokens(tokens, target, width);
            vf::check(tokens.size() == target, "pad:size", to_string(tokens.size()));
            for (size_t i = 0; i < tokens.size(); i++) vf::check(tokens[i] == (i < before.size() ? before[i] : vector<float>(width, 0.f)), "pad", to_string(i));
            key += to_string(before.size()) + "," + to_string(target) + "," + to_string(width) + (before.empty() ? "" : to_string(before[0][0]));
        }
        vf::count("one_hot_" + to_string(kind));
        vf::nontrivial("o" + key);
    });

    vf::section("position", 600, 20000, [] {
        auto &g = rng();
        size_t length = (size_t) vf::side(1, 40, 200), dims = (size_t) vf::side(1, 70, 400);
        RotaryPositionalEmbedder e(length, dims), other(length + (size_t) g.range(0, 20), dims + (size_t) g.range(0, 3) * 2);
        vf::probe("position");
        vf::check(e.getSequenceLength() == length && e.getDimensionality() == dims, "position:shape", "");
        vf::check(e.calculate_result_shape() == vector<size_t>{length, dims}, "position:shape", "");
        vector<vector<float>> tokens;
        for (long long n = g.range(0, (long long) length + 3); n > 0; n--) {
            vector<float> t((size_t) g.range(0, (long long) dims));
            if (g.chance(0.5)) { if (!t.empty()) t[(size_t) g.range(0, (long long) t.size() - 1)] = 1.f; }
            else for (auto &x: t) x = (float) g.real(-2, 2);
            tokens.push_back(t);
        }
        auto out = e.embed_tokens(tokens);
        vf::check(out.size() == min(tokens.size(), length), "position:count", to_string(out.size()) + " of " + to_string(tokens.size()) + " tokens within " + to_string(length));
        for (size_t p = 0; p < out.size(); p++) {
            if (!vf::check(out[p].size() == dims, "position:width", to_string(out[p].size()))) return;
            auto same = other.embed_token(tokens[p], p); // does not depend on how long texts may be
            vf::check(e.embed_token(tokens[p], p) == out[p], "position:single", "");
            for (size_t i = 0; i < dims; i++) {
                if (i >= tokens[p].size()) {
                    vf::check(out[p][i] == 0.f, "position:padding", to_string(out[p][i]));
                    continue;
                }
                // a sine and a cosine per pair of dimensions whose frequencies depend on the pair alone
                size_t pair = i / 2 * 2;
                double f = 1 / exp((double) pair / log(10000.0));
                double want = (double) tokens[p][i] + (i % 2 ? cos((double) p * cos(f)) : sin((double) p * sin(f)));
                vf::check(fabs(out[p][i] - want) <= 1e-4, "position:value", to_string(out[p][i]) + " instead of " + to_string(want) + " at position " + to_string(p) + ", dimension " + to_string(i));
                vf::check(fabs(out[p][i] - same[i]) <= 1e-6, "position:length-matters", to_string(i));
            }
        }
        int errors = 0;
        try { e.embed_token({}, length); } catch (const exception &) { errors++; }
        try { e.embed_token(vector<float>(dims + 1, 0.f), 0); } catch (const exception &) { errors++; }
        vf::check(errors == 2, "position:errors", to_string(errors));
        vf::check(e.get_unknown_token_embedding() == vector<float>(dims, 0.f) && e.get_padding_token_embedding() == vector<float>(dims, 0.f), "position:unknown", "");
        vf::count("positions", (long long) out.size());
        vf::nontrivial("p" + to_string(length) + "," + to_string(dims) + "," + to_string(tokens.size()) + (tokens.empty() || tokens[0].empty() ? "" : to_string(tokens[0][0])));
    });

    vf::section("text", 60, 1500, [] { // a whole text through the tokenizer, one-hot encoding and positions
        auto &g = rng();
        auto bpe = make_shared<BytePairEncoderModel>("default", false);
        string t = someText(60);
        bpe->train(string_to_tokens(someText(200)), -1, 0.00001, 2, 20);
        size_t largest = bpe->getLargestCode();
        size_t length = (size_t) vf::side(1, 120, 500);
        auto embedder = make_shared<RotaryPositionalEmbedder>(length, largest + (size_t) g.range(0, 3));
        vf::probe("text");
        auto e = text_to_tensor_bpe_rotary(t, bpe, embedder);
        string codes, back;
        vector<char16_t> all;
        for (auto &x: bpe->encode(string_to_tokens(t))) all.insert(all.end(), x.begin(), x.end());
        vf::check(e.size() == min(all.size(), length), "text:count", to_string(e.size()) + " instead of " + to_string(min(all.size(), length)));
        vector<float> nothing(largest, 0.f);
        for (size_t p = 0; p < e.size() && p < all.size(); p++) {
            auto base = embedder->embed_token(nothing, p);
            size_t ones = 0;
            for (size_t i = 0; i < largest; i++) {
                float d = e[p][i] - base[i];
                bool hot = fabs(d - 1) < 1e-5;
                vf::check(hot || fabs(d) < 1e-5, "text:value", to_string(d));
                ones += hot;
                if (hot) vf::check(i == all[p], "text:code", to_string(i) + " instead of " + to_string((unsigned) all[p]));
            }
            vf::check(ones == (all[p] < largest ? 1u : 0u), "text:ones", to_string(ones) + " for code " + to_string((unsigned) all[p]));
        }
        vf::count("texts");
        vf::nontrivial("x" + t + to_string(largest));
    });

    vf::section("words", 1500, 60000, [] { // a trie is a map
        auto &g = rng();
        Trie t;
        map<string, string> m;
        auto word = [&] { return g.chance(0.8) ? string((size_t) g.range(0, 3), (char) g.range('a', 'b')) + someText(3) : someText(5); };
        string key;
        vf::probe("words");
        for (long long n = vf::side(0, 40, 500); n > 0; n--) {
            string w = !m.empty() && g.chance(0.3) ? next(m.begin(), g.range(0, (long long) m.size() - 1))->first.substr(0, (size_t) g.range(0, 4)) : word();
            if (g.chance(0.6)) {
                string v = someText(3);
                t.insert(w, v);
                m[w] = v;
                key += w + "=" + v + ";";
            }
            string q = !m.empty() && g.chance(0.6) ? next(m.begin(), g.range(0, (long long) m.size() - 1))->first : word();
            if (g.chance(0.3)) q = q.substr(0, (size_t) g.range(0, 3));
            bool is = m.count(q);
            auto l = m.lower_bound(q);
            bool starts = q.empty() || (l != m.end() && l->first.compare(0, q.size(), q) == 0);
            vf::check(t.search(q) == is, "words:search", hex(q));
            vf::check(t.match(q) == is, "words:match", hex(q));
            vf::check(t.lookup(q) == (is ? m[q] : ""), "words:lookup", hex(q) + " is " + hex(t.lookup(q)));
            vf::check(t.startsWith(q) == starts, "words:prefix", hex(q));
            string c = t.complete(q);
            size_t longest = 0;
            for (auto x = l; x != m.end() && x->first.compare(0, q.size(), q) == 0; ++x) longest = max(longest, x->first.size());
            if (!starts) vf::check(c.empty(), "words:complete", hex(c));
            else if (longest <= q.size()) vf::check(c == q, "words:complete", hex(c) + " for " + hex(q));
            else vf::check(m.count(c) && c.size() == longest && c.compare(0, q.size(), q) == 0, "words:complete", hex(c) + " for " + hex(q));
            vf::count("lookups");
            if (is) vf::count("found");
        }
        vf::nontrivial("w" + key);
    });

    vf::require("tokens", 1000);
    for (int k = 0; k < 4; k++) vf::require("one_hot_" + to_string(k), 20);
    vf::require("positions", 100);
    vf::require("texts", 5);
    vf::require("found", 100);
    return vf::main();
}
