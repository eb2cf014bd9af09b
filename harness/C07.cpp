// C07: a binary dataset file returns what was stored.
#include <bits/stdc++.h>
#include "lang/interpreter.hpp"
#include "common.hpp"
#include "tensor_gen.hpp"

using namespace happyml;
using vf::rng;

typedef shared_ptr<BinaryColumnMetadata> Meta;
typedef vector<shared_ptr<BaseTensor>> Tensors;

static float any_float() {
    auto &g = rng();
    switch (g.range(0, 6)) {
        case 0: return (float) g.range(-3, 3);
        case 1: return (float) g.real(-1, 1);
        case 2: return (float) (g.real(-1, 1) * std::pow(10.0, (double) g.range(-37, 37)));
        case 3: return g.pick(vector<float>{std::numeric_limits<float>::max(), std::numeric_limits<float>::lowest(), std::numeric_limits<float>::min(),
                                            std::numeric_limits<float>::denorm_min(), std::numeric_limits<float>::infinity(), -0.f, 0.f, 0.1f});
        default: {
            uint32_t bits = (uint32_t) g.range(0, 0xffffffffLL);
            float f;
            memcpy(&f, &bits, 4);
            return std::isnan(f) ? 1.f : f;
        }
    }
}

static string any_text(size_t most) {
    string s;
    for (long long n = rng().range(0, (long long) most); n > 0; n--) s += (char) (rng().chance(0.7) ? rng().range('a', 'z') : rng().range(0, 255));
    return s;
}

static Meta any_metadata(bool plain_numbers = false) {
    auto &g = rng();
    auto m = make_shared<BinaryColumnMetadata>();
    m->purpose = g.pick(vector<char>{'I', 'N', 'N', 'L', 'T'});
    if (plain_numbers) m->purpose = 'N';
    m->rows = (uint64_t) vf::side(1, 4, 14);
    m->columns = (uint64_t) vf::side(1, g.chance(0.1) ? 40 : 5, 60);
    m->channels = g.chance(0.3) ? (uint64_t) g.range(2, 4) : 1;
    m->is_standardized = g.chance(0.5);
    m->is_normalized = g.chance(0.5);
    m->mean = any_float();
    m->standard_deviation = any_float();
    m->min_value = any_float();
    m->max_value = any_float();
    m->source_column_count = (uint64_t) g.range(0, 1000);
    m->name = any_text(g.chance(0.05) ? 3000 : 12);
    if (m->purpose == 'L' || g.chance(0.1))
        for (uint64_t i = 0; i < m->columns; i++) m->ordered_labels.push_back(any_text(g.chance(0.05) ? 500 : 8));
    return m;
}

static shared_ptr<BaseTensor> any_value(const Meta &m) {
    auto &g = rng();
    vector<vector<vector<float>>> v(m->channels, vector<vector<float>>(m->rows, vector<float>(m->columns, 0.f)));
    for (auto &c: v)
        for (auto &r: c) {
            if (m->purpose == 'L') r[(size_t) g.range(0, (long long) r.size() - 1)] = 1.f;
            else for (auto &x: r) x = m->purpose == 'I' ? (float) g.range(0, 255) / 255.f : any_float();
        }
    if (m->purpose == 'I') {
        if (g.chance(0.5)) return pixelTensor(v);
        return tensor(v);
    }
    if (g.chance(0.2)) return materializeTensor(tensor(v));
    if (g.chance(0.2)) return make_shared<ScalarMultiplyTensorView>(tensor(v), 1.f); // what is written need not be in memory yet
    return tensor(v);
}

static bool same_bits(float a, float b) { return memcmp(&a, &b, 4) == 0 || (a == 0 && b == 0); }

static string compare(const shared_ptr<BaseTensor> &got, const shared_ptr<BaseTensor> &wanted) {
    if (got->rowCount() != wanted->rowCount() || got->columnCount() != wanted->columnCount() || got->channelCount() != wanted->channelCount()) return "shape";
    for (size_t c = 0; c < wanted->channelCount(); c++)
        for (size_t r = 0; r < wanted->rowCount(); r++)
            for (size_t k = 0; k < wanted->columnCount(); k++) {
                float a = got->getValue(r, k, c), b = wanted->getValue(r, k, c);
                if (!same_bits(a, b)) return "value " + to_string(a) + " for " + to_string(b);
            }
    return "";
}

static bool same_metadata(const BinaryColumnMetadata &a, const BinaryColumnMetadata &b) {
    return a.purpose == b.purpose && a.is_standardized == b.is_standardized && a.is_normalized == b.is_normalized && same_bits(a.mean, b.mean) &&
           same_bits(a.standard_deviation, b.standard_deviation) && same_bits(a.min_value, b.min_value) && same_bits(a.max_value, b.max_value) &&
           a.source_column_count == b.source_column_count && a.rows == b.rows && a.columns == b.columns && a.channels == b.channels &&
           a.ordered_labels == b.ordered_labels && a.name == b.name;
}

static string row_key(const Tensors &t) {
    string k;
    for (auto &x: t)
        for (size_t i = 0; i < x->size(); i++) {
            float f = x->getValue(i);
            k.append((const char *) &f, 4);
        }
    return k;
}

struct Stored {
    vector<Meta> given, expected;
    vector<pair<Tensors, Tensors>> rows; // those that were stored
};

static Stored write(const string &path, size_t most_rows, bool plain_numbers = false) {
    auto &g = rng();
    Stored s;
    for (long long n = g.range(1, 4); n > 0; n--) s.given.push_back(any_metadata(plain_numbers));
    for (long long n = g.range(0, 3); n > 0; n--) s.expected.push_back(any_metadata(plain_numbers));
    size_t cache = g.chance(0.2) ? 0 : g.chance(0.2) ? (size_t) g.range(1, 5) : 100000;
    auto writer = s.expected.empty() && g.chance(0.5) ? make_shared<BinaryDatasetWriter>(path, s.given, cache) : make_shared<BinaryDatasetWriter>(path, s.given, s.expected, cache);
    vf::check(writer->is_open(), "writer:open", path);
    map<string, size_t> last; // by given values, when it was last stored
    for (long long n = vf::side(0, (long long) most_rows, (long long) most_rows * 12); n > 0; n--) {
        Tensors a, b;
        if (!s.rows.empty() && g.chance(0.15)) {
            a = g.pick(s.rows).first;
            vf::count("repeated rows offered");
        } else
            for (auto &m: s.given) a.push_back(any_value(m));
        for (auto &m: s.expected) b.push_back(any_value(m));
        bool kept = b.empty() && g.chance(0.5) ? writer->writeRow(a) : writer->writeRow(a, b);
        string k = row_key(a);
        bool known = last.count(k) > 0;
        if (cache == 0) vf::check(kept, "writer:dropped", "a row was dropped though duplicates are wanted");
        else if (!known) vf::check(kept, "writer:dropped", "a row unlike every earlier one was dropped");
        else if (cache == 100000) vf::check(!kept, "writer:repeated", "a row was stored twice");
        if (kept) {
            last[k] = s.rows.size();
            s.rows.emplace_back(a, b);
        }
    }
    if (g.chance(0.5)) {
        writer->close();
        vf::check(!writer->is_open(), "writer:close", path);
    }
    vf::count("rows", (long long) s.rows.size());
    return s;
}

static void judge_metadata(BinaryDatasetReader &reader, const Stored &s) {
    bool ok = vf::check(reader.get_given_column_count() == s.given.size() && reader.get_expected_column_count() == s.expected.size(), "column count", "");
    if (!ok) return;
    auto all_given = reader.get_given_metadata(), all_expected = reader.get_expected_metadata();
    auto given_names = reader.get_given_names(), expected_names = reader.get_expected_names();
    vf::check(all_given.size() == s.given.size() && given_names.size() == s.given.size() && all_expected.size() == s.expected.size() && expected_names.size() == s.expected.size(),
              "metadata list", "");
    for (size_t i = 0; i < s.given.size(); i++) {
        auto &m = s.given[i];
        vf::check(same_metadata(*reader.get_given_metadata(i), *m) && same_metadata(*all_given[i], *m), "given metadata", m->name);
        vf::check(reader.getGivenTensorPurpose(i) == m->purpose && reader.getGivenTensorDims(i) == vector<size_t>{m->rows, m->columns, m->channels} &&
                  reader.getGivenTensorOrderedLabels((int) i) == m->ordered_labels && reader.get_given_name((int) i) == m->name && given_names[i] == m->name, "given accessors", m->name);
    }
    for (size_t i = 0; i < s.expected.size(); i++) {
        auto &m = s.expected[i];
        vf::check(same_metadata(*reader.get_expected_metadata(i), *m) && same_metadata(*all_expected[i], *m), "expected metadata", m->name);
        vf::check(reader.getExpectedTensorPurpose(i) == m->purpose && reader.getExpectedTensorDims(i) == vector<size_t>{m->rows, m->columns, m->channels} &&
                  reader.getExpectedTensorOrderedLabels((int) i) == m->ordered_labels && reader.get_expected_name((int) i) == m->name && expected_names[i] == m->name &&
                  reader.is_standardized(i) == m->is_standardized && reader.is_normalized(i) == m->is_normalized, "expected accessors", m->name);
    }
    auto throws = [](auto fn) {
        try { fn(); } catch (std::exception &) { return true; }
        return false;
    };
    vf::check(throws([&]() { reader.get_given_metadata(s.given.size()); }) && throws([&]() { reader.get_expected_metadata(s.expected.size()); }) &&
              throws([&]() { reader.getGivenTensorDims(s.given.size()); }) && throws([&]() { reader.getExpectedTensorDims(s.expected.size()); }) &&
              throws([&]() { reader.getExpectedTensorPurpose(s.expected.size()); }) && throws([&]() { reader.get_given_name((int) s.given.size()); }),
              "no such column", "asking for a column beyond the last isn't an error");
}

static void judge_row(BinaryDatasetReader &reader, const Stored &s, size_t i) {
    auto [a, b] = reader.readRow(i);
    if (!vf::check(a.size() == s.given.size() && b.size() == s.expected.size(), "row shape", "")) return;
    auto &row = s.rows[i];
    for (size_t k = 0; k < a.size(); k++) {
        string d = compare(a[k], row.first[k]);
        vf::check(d.empty(), "given values", "row " + to_string(i) + " column " + to_string(k) + " purpose " + s.given[k]->purpose + ": " + d);
    }
    for (size_t k = 0; k < b.size(); k++) {
        string d = compare(b[k], row.second[k]);
        vf::check(d.empty(), "expected values", "row " + to_string(i) + " column " + to_string(k) + " purpose " + s.expected[k]->purpose + ": " + d);
    }
}

int main() {
    vf::rule("every row stored is read back bit for bit, by any index, in any order, by any number of readers; every metadata field and accessor agrees with what was "
             "written; a row is dropped only when its given values equal those of an earlier one and duplicates are not wanted; renormalizing gives each "
             "column the statistics asked for that column");

    vf::section("round trip", 500, 6000, []() {
        auto &g = rng();
        string path = "a.bin";
        if (g.chance(0.3)) vf::writeFile(path, any_text(2000)); // there may be an earlier file
        Stored s = write(path, g.chance(0.1) ? 120 : 15);
        BinaryDatasetReader reader(path);
        vf::check(reader.is_open() && reader.rowCount() == s.rows.size(), "row count", to_string(reader.rowCount()) + " for " + to_string(s.rows.size()));
        if (reader.rowCount() != s.rows.size()) return;
        judge_metadata(reader, s);
        unique_ptr<BinaryDatasetReader> other;
        for (size_t n = s.rows.size() * 2 + 2; n > 0; n--) {
            if (g.chance(0.1)) other = make_unique<BinaryDatasetReader>(path);
            if (s.rows.empty() || g.chance(0.05)) {
                bool threw = false;
                try { reader.readRow(s.rows.size() + (size_t) g.range(0, 3)); } catch (std::exception &) { threw = true; }
                vf::check(threw, "no such row", "reading past the last row isn't an error");
                continue;
            }
            judge_row(other && g.chance(0.5) ? *other : reader, s, (size_t) g.range(0, (long long) s.rows.size() - 1));
        }
        for (size_t i = 0; i < s.rows.size(); i++) judge_row(reader, s, i);
        uint64_t row_size = 0;
        for (auto &m: s.given) row_size += m->rows * m->columns * m->channels;
        for (auto &m: s.expected) row_size += m->rows * m->columns * m->channels;
        vf::nontrivial(to_string(s.given.size()) + "/" + to_string(s.expected.size()) + "/" + to_string(row_size) + "/" + to_string(s.rows.size()));
        vf::sample("given " + to_string(s.given.size()) + " expected " + to_string(s.expected.size()) + " rows " + to_string(s.rows.size()));
        reader.close();
        vf::check(!reader.is_open(), "reader:close", "");
    });

    vf::section("many columns", 20, 200, []() {
        auto &g = rng();
        Stored s;
        for (long long n = g.range(1, 60); n > 0; n--) s.given.push_back(any_metadata());
        for (long long n = g.range(1, 60); n > 0; n--) s.expected.push_back(any_metadata());
        {
            BinaryDatasetWriter writer("m.bin", s.given, s.expected, 0);
            for (int i = 0; i < 5; i++) {
                Tensors a, b;
                for (auto &m: s.given) a.push_back(any_value(m));
                for (auto &m: s.expected) b.push_back(any_value(m));
                writer.writeRow(a, b);
                s.rows.emplace_back(a, b);
            }
        }
        BinaryDatasetReader reader("m.bin");
        vf::check(reader.rowCount() == 5, "row count", "");
        judge_metadata(reader, s);
        for (size_t i: {4, 0, 3, 1, 2, 4}) judge_row(reader, s, i);
        vf::nontrivial("many " + to_string(s.given.size()) + "/" + to_string(s.expected.size()));
    });

    vf::section("renormalize", 300, 4000, []() {
        auto &g = rng();
        Stored s;
        auto numbers = [&]() {
            auto m = any_metadata(true);
            double big = std::pow(10.0, (double) g.range(-3, 4));
            m->mean = (float) (g.real(-1, 1) * big);
            m->standard_deviation = (float) (g.real(0.2, 2) * big);
            m->min_value = (float) g.real(-3, 1) * (m->is_standardized ? 1.f : (float) big);
            m->max_value = m->min_value + (float) g.real(0.2, 4) * (m->is_standardized ? 1.f : (float) big);
            m->name = "n" + to_string(g.range(0, 99));
            return m;
        };
        for (long long n = g.range(1, 4); n > 0; n--) s.given.push_back(numbers());
        for (long long n = g.range(0, 3); n > 0; n--) s.expected.push_back(numbers());
        {
            BinaryDatasetWriter writer("r.bin", s.given, s.expected, 0);
            for (int i = 0; i < 4; i++) {
                Tensors a, b;
                auto value = [&](const Meta &m) {
                    vector<vector<vector<float>>> v(m->channels, vector<vector<float>>(m->rows, vector<float>(m->columns)));
                    for (auto &c: v) for (auto &r: c) for (auto &x: r) x = (float) g.real(0, 1);
                    return tensor(v);
                };
                for (auto &m: s.given) a.push_back(value(m));
                for (auto &m: s.expected) b.push_back(value(m));
                writer.writeRow(a, b);
                s.rows.emplace_back(a, b);
            }
        }
        vector<Meta> given, expected;
        auto target = [&](const Meta &from) {
            if (g.chance(0.2)) return from;
            auto m = numbers();
            m->rows = from->rows, m->columns = from->columns, m->channels = from->channels;
            return m;
        };
        if (g.chance(0.8)) for (auto &m: s.given) given.push_back(target(m));
        if (g.chance(0.8)) for (auto &m: s.expected) expected.push_back(target(m));
        if (g.chance(0.1) && !given.empty()) { // not the same columns
            auto wrong = given;
            if (wrong.size() > 1 && g.chance(0.5)) wrong.pop_back(); else wrong.push_back(numbers());
            bool threw = false;
            try { BinaryDatasetReader("r.bin", wrong, expected); } catch (std::exception &) { threw = true; }
            vf::check(threw, "renormalize:column count", "");
        }
        auto raw = [](const BinaryColumnMetadata &m, double v) { // what was meant
            if (m.is_normalized) v = v * ((double) m.max_value - m.min_value) + m.min_value;
            if (m.is_standardized) v = v * m.standard_deviation + m.mean;
            return v;
        };
        auto judge = [&](const shared_ptr<BaseTensor> &got, const shared_ptr<BaseTensor> &stored, const BinaryColumnMetadata &m, const BinaryColumnMetadata *t, const string &key) {
            if (!t) {
                vf::check(compare(got, stored).empty(), key + ":unasked", "");
                return;
            }
            for (size_t c = 0; c < stored->channelCount(); c++)
                for (size_t r = 0; r < stored->rowCount(); r++)
                    for (size_t k = 0; k < stored->columnCount(); k++) {
                        double v = raw(m, stored->getValue(r, k, c)), size = std::fabs(v) + std::fabs(m.mean) * m.is_standardized + std::fabs(m.min_value);
                        double w = v, scale = 1;
                        if (t->is_standardized) w = (w - t->mean) / t->standard_deviation, scale /= t->standard_deviation, size += std::fabs(t->mean);
                        if (t->is_normalized) {
                            w = (w - t->min_value) / ((double) t->max_value - t->min_value);
                            size = size * scale + std::fabs(t->min_value) + std::fabs(t->max_value);
                            scale = 1 / ((double) t->max_value - t->min_value);
                        }
                        double tolerance = 4e-6 * (std::fabs(size * scale) + std::fabs(w)) + 1e-30;
                        vf::check(std::fabs(got->getValue(r, k, c) - w) <= tolerance, key,
                                  to_string(got->getValue(r, k, c)) + " for " + to_string(w) + " tolerance " + to_string(tolerance));
                    }
            vf::count("columns renormalized");
        };
        BinaryDatasetReader reader("r.bin", given, expected);
        vf::check(reader.rowCount() == s.rows.size(), "row count", "");
        for (size_t i = 0; i < s.rows.size(); i++) {
            auto [a, b] = reader.readRow(i);
            for (size_t k = 0; k < a.size(); k++) judge(a[k], s.rows[i].first[k], *s.given[k], given.empty() ? nullptr : given[k].get(), "renormalize:given");
            for (size_t k = 0; k < b.size(); k++) judge(b[k], s.rows[i].second[k], *s.expected[k], expected.empty() ? nullptr : expected[k].get(), "renormalize:expected");
        }
        vf::nontrivial("renormalize " + to_string(given.size()) + "/" + to_string(expected.size()) + " " + to_string(g.range(0, 1 << 30)));
    });

    vf::section("not stored", 30, 300, []() {
        auto &g = rng();
        auto m = any_metadata(true);
        // a place that can't be written
        string place = g.pick(vector<string>{"missing/a.bin", "."});
        bool reported = false;
        try {
            BinaryDatasetWriter writer(place, {m});
            reported = !writer.is_open();
        } catch (std::exception &) { reported = true; }
        vf::check(reported, "writer:unwritable", place);
        bool threw = false;
        try { BinaryDatasetWriter writer("n.bin", {}); } catch (std::exception &) { threw = true; }
        vf::check(threw, "writer:no columns", "");
        // the disk is full
        if (vf::exists("/dev/full")) {
            bool failed = false;
            try {
                BinaryDatasetWriter writer("/dev/full", {m}, 0);
                for (int i = 0; i < 3000; i++) writer.writeRow({any_value(m)});
                writer.close();
            } catch (std::exception &) { failed = true; }
            vf::check(failed, "writer:disk full", "rows that could not be stored were not reported");
            vf::count("full disks");
        }
        vf::nontrivial(place + to_string(vf::st().index % 7));
    });

    vf::require("rows", 1000);
    vf::require("columns renormalized", 200);
    vf::require("repeated rows offered", 50);
    return vf::main();
}
