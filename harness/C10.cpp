// C10: encoded column values decode back to the original.
#include <bits/stdc++.h>
#include "lang/interpreter.hpp"
#include "common.hpp"

using namespace happyml;
using vf::rng;

typedef shared_ptr<BinaryColumnMetadata> Meta;

static Meta meta(char purpose, uint64_t rows, uint64_t columns, uint64_t channels, const vector<string> &labels = {}) {
    auto m = make_shared<BinaryColumnMetadata>();
    m->purpose = purpose;
    m->rows = rows, m->columns = columns, m->channels = channels;
    m->ordered_labels = labels;
    m->name = "column";
    return m;
}

static string blanks() { return string((size_t) rng().range(0, 2), rng().chance(0.5) ? ' ' : '\t'); }

static vector<string> distinct_labels(size_t most) {
    auto &g = rng();
    std::set<string> s;
    for (long long n = vf::side(1, (long long) most, 300); n > 0; n--) {
        string t;
        for (long long k = g.range(0, 8); k > 0; k--) t += (char) (g.chance(0.8) ? g.range('A', 'z') : g.range(1, 255));
        s.insert(strip(t));
    }
    vector<string> v(s.begin(), s.end());
    g.shuffle(v);
    return v;
}

struct Shape {
    size_t rows, columns, channels;
    Shape() {
        auto &g = rng();
        rows = (size_t) vf::side(1, 4, 20), columns = (size_t) vf::side(1, 5, 30), channels = g.chance(0.4) ? (size_t) g.range(2, 4) : 1;
    }
    size_t size() const { return rows * columns * channels; }
    // in the order of a source file
    static double at(const shared_ptr<BaseTensor> &t, size_t i) {
        size_t rows = t->rowCount(), columns = t->columnCount();
        return t->getValue((i / columns) % rows, i % columns, i / columns / rows);
    }
};

static string number(double &value) {
    auto &g = rng();
    char b[64];
    switch (g.range(0, 5)) {
        case 0: snprintf(b, sizeof b, "%lld", g.range(-1000, 1000)); break;
        case 1: snprintf(b, sizeof b, "%.9g", g.real(-1, 1)); break;
        case 2: snprintf(b, sizeof b, "%.3e", g.real(-1, 1) * std::pow(10., (double) g.range(-30, 30))); break;
        case 3: snprintf(b, sizeof b, "%.12f", g.real(-100, 100)); break;
        case 4: b[0] = 0; break; // nothing is zero
        default: snprintf(b, sizeof b, "%g", g.pick(vector<double>{0, 1, -1, 0.1, 16777217, 1e38, -1e38, 1e-38}));
    }
    value = b[0] ? (double) std::strtof(b, nullptr) : 0.;
    return b;
}

int main() {
    vf::rule("encode and decode are inverse on every generated value: labels exactly, pixels exactly, numbers to the float nearest the text, through statistics within 1e-6 of the largest magnitude involved");
    vf::rule("values between the least and the greatest of their column are stored between 0 and 1, columns of one value too; nothing stored is NaN");

    vf::section("numbers", 600, 10000, []() {
        auto &g = rng();
        Shape s;
        vector<string> words;
        vector<double> values(s.size());
        bool trim = g.chance(0.7);
        for (auto &v: values) {
            string w = number(v);
            words.push_back(trim ? blanks() + w + blanks() : w);
        }
        TextToScalarEncoder encoder;
        vf::check(encoder.calculate_output_shape(s.rows, s.columns, s.channels) == vector<size_t>{s.rows, s.columns, s.channels}, "numbers:shape", "");
        auto t = encoder.encode(words, s.rows, s.columns, s.channels, trim);
        if (!vf::check(t->rowCount() == s.rows && t->columnCount() == s.columns && t->channelCount() == s.channels, "numbers:shape", "")) return;
        auto d = build_decoder(g.chance(0.5), meta('N', s.rows, s.columns, s.channels))->decode(t);
        for (size_t i = 0; i < s.size(); i++) {
            vf::check((float) Shape::at(t, i) == (float) values[i], "numbers:encoded", "'" + words[i] + "' became " + to_string(Shape::at(t, i)));
            vf::check((float) Shape::at(d, i) == (float) values[i], "numbers:decoded", "'" + words[i] + "' became " + to_string(Shape::at(d, i)));
        }
        // what is not a number
        string bad = g.pick(vector<string>{"x", "1x", "1 2", "1,2", "0x10", "--1", "+-1", "e5", "1e", ".", "-", "one", "1.2.3", "\xff"});
        words[(size_t) g.range(0, (long long) words.size() - 1)] = bad;
        bool threw = false;
        try { encoder.encode(words, s.rows, s.columns, s.channels, trim); } catch (std::exception &) { threw = true; }
        vf::check(threw, "numbers:not a number", "'" + bad + "' is taken for a number");
        vf::nontrivial(words[0] + "/" + to_string(s.size()));
        vf::count("numbers", (long long) s.size());
    });

    vf::section("pixels", 400, 6000, []() {
        auto &g = rng();
        Shape s;
        vector<string> words;
        vector<int> values;
        for (size_t i = 0; i < s.size(); i++) {
            values.push_back((int) g.range(0, 255));
            words.push_back(blanks() + to_string(values[i]) + blanks());
        }
        auto t = TextToPixelEncoder().encode(words, s.rows, s.columns, s.channels, true);
        if (!vf::check(t->rowCount() == s.rows && t->columnCount() == s.columns && t->channelCount() == s.channels, "pixels:shape", "")) return;
        auto d = build_decoder(false, meta('I', s.rows, s.columns, s.channels))->decode(t);
        vector<HappyMLVariant> given;
        for (auto v: values) {
            if (g.chance(0.4)) given.emplace_back(v);
            else if (g.chance(0.5)) given.emplace_back((float) v);
            else given.emplace_back(to_string(v));
        }
        auto u = HappyMLVariantEncoder(meta('I', s.rows, s.columns, s.channels)).encode(given);
        for (size_t i = 0; i < s.size(); i++) {
            vf::check(std::fabs(Shape::at(t, i) * 255 - values[i]) < 1e-4 && std::fabs(Shape::at(d, i) * 255 - values[i]) < 1e-4, "pixels:value", to_string(values[i]) + " became " + to_string(Shape::at(t, i) * 255));
            vf::check(Shape::at(u, i) == Shape::at(t, i), "pixels:inline", to_string(values[i]) + " became " + to_string(Shape::at(u, i) * 255));
        }
        vf::count("pixels", (long long) s.size());
        vf::nontrivial("pixels " + to_string(s.size()) + "/" + words[0] + words.back());
    });

    vf::section("labels", 600, 10000, []() {
        auto &g = rng();
        auto labels = distinct_labels(g.chance(0.1) ? 200 : 8);
        TextToUniqueCategoryEncoder encoder(labels);
        auto m = meta('L', 1, labels.size(), 1, labels);
        auto decoder = build_decoder(false, m);
        HappyMLVariantEncoder inline_encoder(m);
        vf::check(encoder.calculate_output_shape(1, 1, 1) == vector<size_t>{1, labels.size(), 1}, "labels:shape", "");
        std::set<size_t> positions;
        for (auto &label: labels) {
            auto t = encoder.encode({blanks() + label + blanks()}, 1, labels.size(), 1, true);
            auto u = inline_encoder.encode({HappyMLVariant(label)});
            size_t ones = 0;
            bool same = u->rowCount() == 1 && u->columnCount() == labels.size() && u->channelCount() == 1;
            for (size_t i = 0; i < labels.size(); i++) {
                float v = t->getValue(0, i, 0);
                vf::check(v == 0 || v == 1, "labels:one hot", "");
                if (v == 1) ones++, positions.insert(i);
                same = same && u->getValue(0, i, 0) == v;
            }
            vf::check(ones == 1, "labels:one hot", label);
            vf::check(same, "labels:inline", label);
            vf::check(decoder->decodeBest(t) == label, "labels:decoded", label + " became " + decoder->decodeBest(t));
            auto top = decoder->decodeTop(t, 1);
            vf::check(top.size() == 1 && top[0] == label, "labels:top", label);
        }
        vf::check(positions.size() == labels.size(), "labels:distinct", "two labels share a place");
        // predictions: from the most to the least likely
        vector<float> p;
        for (size_t i = 0; i < labels.size(); i++) p.push_back((float) g.real(-2, 2));
        vector<size_t> order(labels.size());
        std::iota(order.begin(), order.end(), 0);
        std::stable_sort(order.begin(), order.end(), [&](size_t a, size_t b) { return p[a] > p[b]; });
        auto t = columnVector(p);
        vf::check(decoder->decodeBest(t) == labels[order[0]], "labels:best", "");
        size_t n = (size_t) g.range(1, (long long) labels.size() + 2);
        auto top = decoder->decodeTop(t, n);
        bool ok = top.size() == std::min(n, labels.size());
        for (size_t i = 0; i < top.size() && ok; i++) ok = top[i] == labels[order[i]];
        vf::check(ok, "labels:top", "the " + to_string(n) + " most likely of " + to_string(labels.size()));
        // more columns than labels: an error when the answer has no label
        for (size_t extra = 1; extra <= 2; extra++) {
            auto wide = p;
            for (size_t i = 0; i < extra; i++) wide.push_back(9.f + (float) i);
            auto w = columnVector(wide);
            int refused = 0;
            try { decoder->decodeBest(w); } catch (std::exception &) { refused++; }
            try { decoder->decodeTop(w, 1 + (size_t) g.range(0, 3)); } catch (std::exception &) { refused++; }
            vf::check(refused == 2, "labels:no such label", to_string(labels.size()) + " labels and " + to_string(wide.size()) + " columns");
        }
        // several words, one row each
        size_t rows = (size_t) g.range(1, 4);
        vector<string> words;
        for (size_t i = 0; i < rows; i++) words.push_back(g.pick(labels));
        auto many = encoder.encode(words, rows, labels.size(), 1, true);
        for (size_t r = 0; r < rows; r++)
            vf::check(many->rowCount() == rows && labels.at(many->maxIndexByRow(0, r)) == words[r], "labels:rows", "");
        // an unknown one
        string unknown = "unknown\x01label";
        int threw = 0;
        try { encoder.encode({unknown}, 1, labels.size(), 1, true); } catch (std::exception &) { threw++; }
        try { inline_encoder.encode({HappyMLVariant(unknown)}); } catch (std::exception &) { threw++; }
        try { encoder.encode({labels[0], labels[0]}, 1, labels.size(), 1, true); } catch (std::exception &) { threw++; }
        vf::check(threw == 3, "labels:unknown", "unknown labels and wrong counts are errors");
        vf::count("labels", (long long) labels.size());
        vf::nontrivial(labels[0] + to_string(labels.size()) + "/" + to_string(n));
    });

    vf::section("statistics", 600, 10000, []() {
        // whole columns, through the files
        auto &g = rng();
        struct Column {
            Meta m;
            double least = 1e300, most = -1e300, size = 0;
            std::vector<std::vector<double>> values; // by record
        };
        vector<Column> given, expected;
        size_t n = g.chance(0.1) ? 1 : (size_t) vf::side(1, 25, 300);
        auto make = [&]() {
            Column c;
            Shape s;
            c.m = meta('N', s.rows, s.columns, s.channels);
            int style = (int) g.range(0, 6);
            double big = std::pow(10., (double) g.range(-6, 6)), center = g.chance(0.5) ? 0 : g.real(-1, 1) * big * 10;
            for (size_t i = 0; i < n; i++) {
                std::vector<double> v;
                for (size_t k = 0; k < s.size(); k++) {
                    double x = style == 0 ? center : style == 1 ? (double) g.range(0, 1) : style == 2 ? center + (double) g.range(-2, 2) : style == 3 ? 0. : center + g.real(-1, 1) * big;
                    v.push_back((double) (float) x);
                    c.least = std::min(c.least, v.back()), c.most = std::max(c.most, v.back()), c.size = std::max(c.size, std::fabs(v.back()));
                }
                c.values.push_back(v);
            }
            return c;
        };
        for (long long k = g.range(1, 3); k > 0; k--) given.push_back(make());
        for (long long k = g.range(0, 2); k > 0; k--) expected.push_back(make());
        bool with_label = g.chance(0.4), with_image = g.chance(0.4);
        vector<Meta> mg, me;
        for (auto &c: given) mg.push_back(c.m);
        for (auto &c: expected) me.push_back(c.m);
        if (with_label) me.push_back(meta('L', 1, 2, 1, {"a", "b"}));
        if (with_image) mg.push_back(meta('I', 2, 2, 1));
        vf::freshDir("set");
        auto as_tensor = [](const Column &c, size_t i) {
            vector<vector<vector<float>>> v(c.m->channels, vector<vector<float>>(c.m->rows, vector<float>(c.m->columns)));
            size_t k = 0;
            for (auto &a: v) for (auto &b: a) for (auto &x: b) x = (float) c.values[i][k++];
            return tensor(v);
        };
        {
            BinaryDatasetWriter writer("set/raw.bin", mg, me, 0);
            for (size_t i = 0; i < n; i++) {
                vector<shared_ptr<BaseTensor>> a, b;
                for (auto &c: given) a.push_back(as_tensor(c, i));
                for (auto &c: expected) b.push_back(as_tensor(c, i));
                if (with_label) b.push_back(columnVector({i % 2 ? 1.f : 0.f, i % 2 ? 0.f : 1.f}));
                if (with_image) a.push_back(tensor(vector<vector<vector<float>>>{{{0, 1}, {51.f / 255, (float) (i % 255) / 255}}}));
                writer.writeRow(a, b);
            }
            writer.close();
        }
        vf::probe("normalize");
        normalize_and_standardize_dataset("set/raw.bin", "set");
        BinaryDatasetReader reader("set/dataset.bin");
        if (!vf::check(reader.rowCount() == n && reader.get_given_column_count() == mg.size() && reader.get_expected_column_count() == me.size(), "statistics:layout", "")) return;
        auto raw_given = build_given_decoders(true, reader), raw_expected = build_expected_decoders(true, reader);
        auto decode_given = build_given_decoders(false, reader), decode_expected = build_expected_decoders(false, reader);
        auto judge = [&](const Column &c, shared_ptr<BaseTensor> stored, RawDecoder &raw, RawDecoder &decoder, const Meta &m, size_t i, const string &which) {
            auto back = decoder.decode(stored), as_is = raw.decode(stored);
            vf::check(m->is_normalized, "statistics:not normalized", which);
            for (size_t k = 0; k < c.values[i].size(); k++) {
                double want = c.values[i][k], v = Shape::at(stored, k), got = Shape::at(back, k);
                string what = which + " " + to_string(want) + " of " + to_string(c.least) + " to " + to_string(c.most);
                double slack = 1e-6 + 4e-7 * c.size / std::max(c.most - c.least, 1e-300);
                vf::check(c.least == c.most ? v == v && v >= -1e-6 && v <= 1 + 1e-6 : v >= -slack && v <= 1 + slack, "statistics:unit interval", what + " is stored as " + to_string(v));
                vf::check(std::fabs(got - want) <= 1e-6 * c.size + 1e-37, "statistics:decoded", what + " came back as " + to_string(got));
                vf::check(Shape::at(as_is, k) == v, "statistics:raw", what);
                vf::count("values decoded");
            }
            if (m->is_standardized) vf::count("standardized");
            if (c.least == c.most) vf::count("columns of one value");
        };
        for (size_t i = 0; i < n; i++) {
            auto [a, b] = reader.readRow(i);
            for (size_t k = 0; k < given.size(); k++) judge(given[k], a[k], *raw_given[k], *decode_given[k], reader.get_given_metadata(k), i, "given");
            for (size_t k = 0; k < expected.size(); k++) judge(expected[k], b[k], *raw_expected[k], *decode_expected[k], reader.get_expected_metadata(k), i, "expected");
            if (with_label) vf::check(decode_expected.back()->decodeBest(b.back()) == (i % 2 ? "a" : "b"), "statistics:label", "");
            if (with_image) vf::check(std::fabs(a.back()->getValue(1, 1, 0) * 255 - (double) (i % 255)) < 1e-3 && a.back()->getValue(0, 1, 0) == 1 && std::fabs(a.back()->getValue(1, 0, 0) * 255 - 51) < 1e-3, "statistics:image", "");
        }
        // the same values, inline
        for (size_t k = 0; k < given.size(); k++) {
            size_t i = (size_t) g.range(0, (long long) n - 1);
            vector<HappyMLVariant> v;
            for (auto x: given[k].values[i]) v.emplace_back((float) x);
            auto t = HappyMLVariantEncoder(reader.get_given_metadata(k)).encode(v);
            auto row = reader.readRow(i).first[k];
            for (size_t x = 0; x < v.size(); x++) vf::check((float) Shape::at(t, x) == (float) Shape::at(row, x), "statistics:inline", "");
        }
        vf::nontrivial(to_string(given[0].values[0][0]) + "/" + to_string(n) + "/" + to_string(mg.size()) + to_string(me.size()));
    });

    vf::section("views", 300, 5000, []() {
        // a column's statistics from its values, and any statistics undone
        auto &g = rng();
        Shape s;
        double big = std::pow(10., (double) g.range(-3, 5)), center = g.chance(0.3) ? 0 : g.real(-5, 5) * big;
        bool flat = g.chance(0.15);
        vector<vector<vector<float>>> v(s.channels, vector<vector<float>>(s.rows, vector<float>(s.columns)));
        for (auto &a: v) for (auto &b: a) for (auto &x: b) x = (float) (flat ? center : center + g.real(-1, 1) * big);
        auto t = tensor(v);
        double size = 0, least = 1e300, most = -1e300, sum = 0;
        for (size_t i = 0; i < s.size(); i++) size = std::max(size, std::fabs(Shape::at(t, i))), least = std::min(least, Shape::at(t, i)), most = std::max(most, Shape::at(t, i)), sum += Shape::at(t, i);
        auto st = make_shared<StandardizeTensorView>(t);
        auto us = make_shared<UnstandardizeTensorView>(st, st->get_mean(), st->get_std_dev());
        auto no = make_shared<NormalizeTensorView>(t);
        auto dn = make_shared<DenormalizeTensorView>(no, (float) least, (float) most);
        double mean = sum / (double) s.size(), square = 0;
        for (size_t i = 0; i < s.size(); i++) square += std::pow(Shape::at(t, i) - mean, 2);
        double deviation = std::sqrt(square / (double) s.size());
        vf::check(std::fabs(st->get_mean() - mean) <= 1e-6 * size + 1e-30, "views:mean", to_string(st->get_mean()) + " for " + to_string(mean));
        vf::check(deviation <= 1e-6 * size || std::fabs(st->get_std_dev() - deviation) <= 1e-4 * deviation + 1e-6 * size, "views:deviation", to_string(st->get_std_dev()) + " for " + to_string(deviation));
        float mean2 = 0, dev2 = 0, min2 = 0, max2 = 0;
        calcStandardizationValuesForEntireSet({t}, mean2, dev2);
        calcNormalizationValuesForEntireSet({t}, min2, max2);
        vf::check(std::fabs(mean2 - mean) <= 1e-6 * size + 1e-30 && std::fabs(dev2 - deviation) <= 1e-4 * deviation + 1e-6 * size && min2 == (float) least && max2 == (float) most, "views:set statistics", "");
        for (size_t i = 0; i < s.size(); i++) {
            double x = Shape::at(t, i);
            vf::check(std::fabs(Shape::at(us, i) - x) <= 1e-6 * size, "views:unstandardized", to_string(x));
            vf::check(std::fabs(Shape::at(dn, i) - x) <= 1e-6 * size, "views:denormalized", to_string(x));
            vf::check(Shape::at(no, i) >= 0 && Shape::at(no, i) <= 1, "views:unit interval", to_string(x) + " became " + to_string(Shape::at(no, i)));
        }
        vf::nontrivial(to_string(center) + "/" + to_string(big) + "/" + to_string(s.size()));
    });

    vf::section("pictures", 200, 3000, []() {
        // drawn in text: darker never looks brighter, equal looks equal
        auto &g = rng();
        size_t rows = (size_t) vf::side(1, 7, 40), columns = (size_t) vf::side(1, 8, 40), channels = (size_t) g.range(1, 4);
        static const string shades = string(" ") + (char) 176 + (char) 177 + (char) 178 + (char) 219;
        int style = (int) g.range(0, 3);
        float level = (float) g.real(0.05, 1);
        vector<vector<vector<float>>> v(channels, vector<vector<float>>(rows, vector<float>(columns)));
        for (auto &a: v) for (auto &b: a) for (auto &x: b) x = style == 0 ? level : style == 1 ? 0.f : style == 2 ? (float) g.range(0, 1) : (float) g.unit();
        if (g.chance(0.5)) for (auto &a: v) a = v[0]; // gray
        auto t = tensor(v);
        auto lines = build_decoder(false, meta('I', rows, columns, channels))->decodeImage(t);
        string what = to_string(rows) + "x" + to_string(columns) + "x" + to_string(channels);
        if (!vf::check(lines.size() == (rows + 1) / 2, "pictures:lines", what)) return;
        vector<pair<double, size_t>> cells;
        for (size_t y = 0; y < lines.size(); y++) {
            if (!vf::check(lines[y].size() == columns, "pictures:columns", what)) return;
            for (size_t x = 0; x < columns; x++) {
                auto shade = shades.find(lines[y][x]);
                if (!vf::check(shade != string::npos, "pictures:character", what)) return;
                double b = 0;
                size_t used = 0;
                for (size_t r = 2 * y; r < std::min(rows, 2 * y + 2); r++, used++) {
                    if (channels >= 3) b += 0.299 * v[0][r][x] + 0.587 * v[1][r][x] + 0.114 * v[2][r][x];
                    else for (size_t c = 0; c < channels; c++) b += v[c][r][x] / (double) channels;
                }
                cells.emplace_back(b / (double) used, shade);
            }
        }
        std::sort(cells.begin(), cells.end());
        for (size_t i = 1; i < cells.size(); i++)
            if (cells[i].first > cells[i - 1].first + 1e-5)
                vf::check(cells[i].second >= cells[i - 1].second, "pictures:shade", "brightness " + to_string(cells[i].first) + " looks darker than " + to_string(cells[i - 1].first) + " in " + what);
        vf::check(cells.back().first > 0 ? cells.back().second == 4 : cells.back().second == 0, "pictures:brightest", what);
        if (style == 0) vf::check(cells[0].second == cells.back().second, "pictures:uniform", what);
        vf::nontrivial("picture " + what + " " + to_string(level));
    });

    vf::require("numbers", 1000);
    vf::require("labels", 1000);
    vf::require("pixels", 1000);
    vf::require("values decoded", 1000);
    vf::require("standardized", 100);
    vf::require("columns of one value", 50);
    return vf::main();
}
