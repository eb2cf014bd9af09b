// C15: a saved tensor loads back as what its representation held; a damaged or missing file is an error, not a tensor.
#include <bits/stdc++.h>
#include "types/half_float.hpp"
#include "util/tensor_utils.hpp"
#include "types/tensor_views/transpose_tensor_view.hpp"
#include "types/tensor_views/scalar_multiply_tensor_view.hpp"
#include "tensor_gen.hpp"

using namespace happyml;
using vf::rng;
typedef shared_ptr<BaseTensor> T;

static bool sameBits(const T &a, const T &b) {
    if (a->rowCount() != b->rowCount() || a->columnCount() != b->columnCount() || a->channelCount() != b->channelCount()) return false;
    for (size_t i = 0; i < a->size(); i++) {
        float x = a->getValue(i), y = b->getValue(i);
        if (memcmp(&x, &y, 4) != 0 && !(std::isnan(x) && std::isnan(y))) return false;
    }
    return true;
}

static float hostile() {
    auto &g = rng();
    switch (g.range(0, 6)) {
        case 0: return g.pick(vector<float>{0.f, -0.f, INFINITY, -INFINITY, NAN, FLT_MAX, -FLT_MAX, FLT_MIN, 1e-45f});
        case 1: return (float) g.range(-5, 5);
        case 2: {
            uint32_t b = (uint32_t) g.next();
            float f;
            memcpy(&f, &b, 4);
            return f;
        }
        default: return (float) g.real(-2, 2);
    }
}

static vf::Vals gen(size_t &r, size_t &c, size_t &k, bool tame = false) {
    auto &g = rng();
    r = vf::side(1, 6, 30), c = vf::side(1, 7, 30), k = vf::side(1, 4, 6);
    vf::Vals v(k, vector<vector<float>>(r, vector<float>(c)));
    for (auto &a: v) for (auto &b: a) for (auto &x: b) x = tame ? (float) g.real(-2, 2) : hostile();
    return v;
}

static const int kinds = 5;

static T make(int kind, const T &t) {
    switch (kind) {
        case 0: return make_shared<FullTensor>(t);
        case 1: return make_shared<HalfTensor>(t);
        case 2: return make_shared<QuarterTensor>(t, 8);
        case 3: return make_shared<PixelTensor>(t);
        default: return make_shared<ScalarMultiplyTensorView>(make_shared<TransposeTensorView>(t), 1.f);
    }
}

static T load(int kind, const string &p) {
    switch (kind) {
        case 1: return make_shared<HalfTensor>(p);
        case 2: return make_shared<QuarterTensor>(p, 8);
        case 3: return make_shared<PixelTensor>(p);
        default: return make_shared<FullTensor>(p);
    }
}

static const char *names[] = {"full", "half", "quarter", "pixel", "view"};

int main() {
    vf::bigEvery(12);
    vf::rule("random tensors up to 6x7x4 (one case in twelve up to 30x30x6, sometimes over 256 wide) with hostile values (NaN, infinities, denormals, arbitrary bit patterns) in every "
             "representation, saved and loaded; file bytes checked against the portable layout; files truncated at every "
             "length, absent, and with corrupt headers must be refused; distinct by kind, shape and values");
    vf::section("round-trip", 1200, 20000, [] {
        size_t r, c, k;
        int kind = (int) (vf::st().index % kinds);
        auto v = gen(r, c, k, kind == 2 || kind == 3);
        T t = make(kind, vf::full(v));
        string dir = vf::freshDir(), p = dir + "/t.tensor";
        vf::check(t->save(p), "save-failed", names[kind]);
        auto ref = vf::read(t);
        vf::nontrivial(ref.hash() + kind);
        vf::sample(string(names[kind]) + " " + ref.str());
        T l = load(kind, p);
        vf::check(sameBits(t, l), string("round-trip:") + names[kind], ref.str() + " loaded as " + vf::read(l).str());
        vf::count(string("round_trip_") + names[kind]);
        // the layout is the same on every machine: three big-endian 64-bit sizes, then big-endian floats
        string bytes = vf::readFile(p);
        auto be64 = [&](size_t at) {
            uint64_t x = 0;
            for (int i = 0; i < 8; i++) x = x << 8 | (unsigned char) bytes[at + i];
            return x;
        };
        bool ok = bytes.size() == 24 + 4 * t->size() && be64(0) == t->channelCount() && be64(8) == t->rowCount() && be64(16) == t->columnCount();
        for (size_t i = 0; ok && i < t->size(); i++) {
            uint32_t x = 0;
            for (int b = 0; b < 4; b++) x = x << 8 | (unsigned char) bytes[24 + 4 * i + b];
            float f = t->getValue(i), g;
            memcpy(&g, &x, 4);
            ok = memcmp(&f, &g, 4) == 0 || (std::isnan(f) && std::isnan(g));
        }
        vf::check(ok, string("layout:") + names[kind], ref.str());
        // a second generation changes nothing
        string p2 = dir + "/u.tensor";
        l->save(p2);
        vf::check(sameBits(load(kind, p2), l), string("second-generation:") + names[kind], ref.str());
        // several tensors share one stream; bodies without header are read back with known sizes
        {
            ofstream o(dir + "/s", ios::binary);
            t->save(o);
            t->save(o, false);
            t->save(o);
        }
        ifstream in(dir + "/s", ios::binary);
        T a, b, d;
        switch (kind) {
            case 1: break;
            case 2:
                a = make_shared<QuarterTensor>(in, 8);
                b = make_shared<QuarterTensor>(in, 8, t->rowCount(), t->columnCount(), t->channelCount());
                d = make_shared<QuarterTensor>(in, 8);
                break;
            case 3:
                a = make_shared<PixelTensor>(in);
                b = make_shared<PixelTensor>(in, t->rowCount(), t->columnCount(), t->channelCount());
                d = make_shared<PixelTensor>(in);
                break;
            default:
                a = make_shared<FullTensor>(in);
                b = make_shared<FullTensor>(in, t->rowCount(), t->columnCount(), t->channelCount());
                d = make_shared<FullTensor>(in);
        }
        if (a) {
            vf::check(sameBits(a, l) && sameBits(b, l) && sameBits(d, l), string("stream:") + names[kind], ref.str());
            vf::count("stream_round_trips");
        }
        if (kind < 2) {
            auto lt = loadTensor(p, kind == 0 ? 32 : 16);
            vf::check(sameBits(lt, l), "load-by-bits", ref.str());
        }
    });
    vf::section("damaged", 400, 8000, [] {
        auto &g = rng();
        size_t r, c, k;
        int kind = (int) (vf::st().index % 4);
        auto v = gen(r, c, k, true);
        T t = make(kind, vf::full(v));
        string dir = vf::freshDir(), p = dir + "/t.tensor";
        t->save(p);
        string bytes = vf::readFile(p);
        string what;
        switch (g.range(0, 3)) {
            case 0:
                filesystem::remove(p);
                what = "missing";
                break;
            case 1: {
                size_t n = g.range(0, (long long) bytes.size() - 1);
                vf::writeFile(p, bytes.substr(0, n));
                what = "truncated";
                break;
            }
            case 2: {
                // a size that the file cannot hold
                int field = (int) g.range(0, 2);
                for (int i = 0; i < 8; i++) bytes[field * 8 + i] = (char) (i < (int) g.range(0, 7) ? 0 : g.range(1, 255));
                uint64_t n[3];
                for (int f = 0; f < 3; f++) {
                    n[f] = 0;
                    for (int i = 0; i < 8; i++) n[f] = n[f] << 8 | (unsigned char) bytes[f * 8 + i];
                }
                if (n[field] <= (field == 0 ? k : field == 1 ? r : c)) return;
                vf::writeFile(p, bytes);
                what = "oversized";
                break;
            }
            default:
                vf::writeFile(p, "");
                what = "empty";
        }
        vf::nontrivial(what + vf::readFile(p));
        vf::count("damaged_" + what);
        vf::probe(string("damaged:") + what + ":" + names[kind]);
        auto res = vf::isolated([&] {
            try {
                T l = load(kind, p);
                return string("loaded ") + to_string(l->size());
            } catch (const std::exception &e) {
                return string("refused");
            }
        }, 60);
        if (res.timed_out) {
            vf::count("inconclusive");
            return;
        }
        vf::check(res.ok() && res.out == "refused", string("damaged:") + what + ":" + names[kind],
                  res.ok() ? res.out : res.describe());
    });
    for (auto n: names) vf::require(string("round_trip_") + n, 50);
    vf::require("stream_round_trips", 50);
    for (auto n: {"missing", "truncated", "oversized", "empty"}) vf::require(string("damaged_") + n, 10);
    return vf::main();
}
