// C14: the 16-bit, 8-bit and pixel representations are bounded-error, order-preserving, stable encodings.
#include <bits/stdc++.h>
#include "types/half_float.hpp"
#include "types/quarter_float.hpp"
#include "util/tensor_utils.hpp"
#include "types/tensor_views/transpose_tensor_view.hpp"
#include "tensor_gen.hpp"

using namespace happyml;
using vf::rng;
typedef shared_ptr<BaseTensor> T;

static string num(double d) {
    ostringstream o;
    o.precision(9);
    o << d;
    return o.str();
}

static float wide(int emin, int emax) {
    auto &g = rng();
    float x = (float) std::ldexp(1.0 + g.unit(), (int) g.range(emin, emax));
    return g.chance(0.5) ? -x : x;
}

int main() {
    vf::bigEvery(12);
    vf::rule("every one of the 65536 16-bit and 256 8-bit codes (for each exponent bias 1..15), plus random floats over "
             "the whole exponent range and random tensors in each representation; the oracle is the IEEE value of the input: "
             "error bound, order, sign, specials, and encode(decode(x)) == x; distinct by code or value");
    vf::section("half-codes", 64, 64, [] {
        for (uint32_t k = 0; k < 1024; k++) {
            uint32_t code = (uint32_t) vf::st().index * 1024 + k;
            float f = halfToFloat((half) code);
            if (std::isnan(f)) {
                vf::check(std::isnan(halfToFloat(floatToHalf(f))), "half:nan", num(code));
                continue;
            }
            vf::nontrivial(code);
            vf::check(floatToHalf(f) == code, "half:code-not-stable", "code " + num(code) + " decodes to " + num(f) + " which encodes to " + num(floatToHalf(f)));
        }
    });
    vf::section("half-values", 300, 6000, [] {
        for (int k = 0; k < 100; k++) {
            float x = wide(-126, 126), y = rng().chance(0.5) ? wide(-126, 126) : x * (float) (1 + rng().real(-0.02, 0.02));
            float hx = halfToFloat(floatToHalf(x)), hy = halfToFloat(floatToHalf(y));
            vf::nontrivial(vf::hashBytes(&x, 4));
            vf::check(std::fabs((double) hx - x) <= std::fabs((double) x) / 127.9, "half:error", num(x) + " became " + num(hx));
            vf::check(x > y ? hx >= hy : x < y ? hx <= hy : hx == hy, "half:order", num(x) + "," + num(y) + " became " + num(hx) + "," + num(hy));
            vf::check(halfToFloat(floatToHalf(-x)) == -hx, "half:sign", num(x));
            vf::check(halfToFloat(floatToHalf(hx)) == hx, "half:not-idempotent", num(x));
        }
        float inf = INFINITY;
        vf::check(halfToFloat(floatToHalf(inf)) == inf && halfToFloat(floatToHalf(-inf)) == -inf, "half:infinity", "");
        vf::check(std::isnan(halfToFloat(floatToHalf(NAN))) && std::isnan(halfToFloat(floatToHalf(-NAN))), "half:nan", "");
        vf::check(halfToFloat(floatToHalf(0.f)) == 0.f && halfToFloat(floatToHalf(-0.f)) == 0.f, "half:zero", "");
    });
    vf::section("quarter-codes", 15, 15, [] {
        int bias = (int) vf::st().index + 1;
        set<float> seen;
        float last = -1;
        for (int code = 0; code < 256; code++) {
            float f = quarterToFloat((quarter) code, bias);
            vf::nontrivial((uint64_t) code * 100 + bias);
            if (code == QUARTER_NAN) {
                vf::check(std::isnan(f), "quarter:nan-code", num(bias));
                continue;
            }
            if (code == QUARTER_POS_INFINITY || code == QUARTER_NEG_INFINITY) {
                vf::check(std::isinf(f) && (f > 0) == (code == QUARTER_POS_INFINITY), "quarter:infinity-code", num(bias));
                vf::check(floatToQuarter(f, bias) == code, "quarter:infinity-not-stable", num(bias));
                continue;
            }
            // codes above the largest finite one are not produced by the encoder
            if ((code & 0x7f) > QUARTER_MAX) continue;
            quarter back = floatToQuarter(f, bias);
            if (code == 0x80) { // the code for "smaller than the smallest step": it may come back as zero
                vf::check(std::fabs(quarterToFloat(back, bias)) <= std::ldexp(1.0, -bias), "quarter:tiny", num(bias));
                continue;
            }
            vf::check(quarterToFloat(back, bias) == f, "quarter:code-not-stable",
                      "bias " + num(bias) + " code " + num(code) + " decodes to " + num(f) + " which is stored as " + num(quarterToFloat(back, bias)));
            if (code < 0x80) {
                vf::check(f > last, "quarter:codes-not-ordered", "bias " + num(bias) + " code " + num(code));
                last = f;
                if (code > 0)
                    vf::check(quarterToFloat((quarter) (code | 0x80), bias) == -f, "quarter:sign", "bias " + num(bias) + " code " + num(code));
            }
        }
    });
    vf::section("quarter-values", 600, 12000, [] {
        auto &g = rng();
        int bias = (int) g.range(1, 15);
        double top = std::ldexp(1.875, 14 - bias), step = std::ldexp(1.0, -bias) * 1.51;
        for (int k = 0; k < 60; k++) {
            float x = wide(-bias - 2, 13 - bias), y = g.chance(0.5) ? wide(-bias - 2, 13 - bias) : x * (float) (1 + g.real(-0.1, 0.1));
            float qx = quarterToFloat(floatToQuarter(x, bias), bias), qy = quarterToFloat(floatToQuarter(y, bias), bias);
            vf::nontrivial(vf::hashBytes(&x, 4) ^ (uint64_t) bias);
            vf::check(std::fabs((double) qx - x) <= std::fabs((double) x) * 0.0672 + (std::fabs(x) < step ? step : 0), "quarter:error",
                      "bias " + num(bias) + ": " + num(x) + " became " + num(qx));
            bool ordered = x > y ? qx >= qy : x < y ? qx <= qy : qx == qy;
            if (std::fabs(x) >= step && std::fabs(y) >= step)
                vf::check(ordered, "quarter:order", "bias " + num(bias) + ": " + num(x) + "," + num(y) + " became " + num(qx) + "," + num(qy));
            if (std::fabs(x) >= step) vf::check(quarterToFloat(floatToQuarter(-x, bias), bias) == -qx, "quarter:sign", num(x));
            if (std::fabs(x) >= step) vf::check(quarterToFloat(floatToQuarter(qx, bias), bias) == qx, "quarter:not-idempotent", "bias " + num(bias) + ": " + num(x));
            float big = (float) (top * std::ldexp(1 + g.unit(), (int) g.range(0, 40)));
            vf::check(quarterToFloat(floatToQuarter(big, bias), bias) == (float) top && quarterToFloat(floatToQuarter(-big, bias), bias) == (float) -top,
                      "quarter:saturation", "bias " + num(bias) + ": " + num(big) + " became " + num(quarterToFloat(floatToQuarter(big, bias), bias)));
        }
        vf::check(quarterToFloat(floatToQuarter(0.f, bias), bias) == 0.f, "quarter:zero", num(bias));
        float a = wide(-3, 3), b = wide(-3, 3);
        int ba = (int) g.range(4, 8), bb = (int) g.range(4, 8), br = (int) g.range(2, 6);
        quarter qa = floatToQuarter(a, ba), qb = floatToQuarter(b, bb);
        float fa = quarterToFloat(qa, ba), fb = quarterToFloat(qb, bb);
        string what = num(fa) + " and " + num(fb);
        vf::check(quarterMultiply(qa, ba, qb, bb, br) == floatToQuarter(fa * fb, br), "quarter:multiply", what);
        vf::check(quarterAdd(qa, ba, qb, bb, br) == floatToQuarter(fa + fb, br), "quarter:add", what);
        vf::check(quarterSubtract(qa, ba, qb, bb, br) == floatToQuarter(fa - fb, br), "quarter:subtract", what);
        if (fb != 0) vf::check(quarterDivide(qa, ba, qb, bb, br) == floatToQuarter(fa / fb, br), "quarter:divide", what);
        vf::count("quarter_arithmetic");
    });
    vf::section("pixel-codes", 1, 1, [] {
        for (int k = 0; k < 256; k++) {
            float v = (float) k / 255.f;
            PixelTensor t(vector<float>{v});
            vf::nontrivial((uint64_t) k);
            vf::check(t.getValue(0, 0, 0) == v, "pixel:code-not-stable", "level " + num(k) + " of 255 is stored as " + num(t.getValue(0, 0, 0) * 255));
        }
    });
    vf::section("tensors", 700, 14000, [] {
        auto &g = rng();
        size_t r = vf::side(1, 5, 30), c = vf::side(1, 6, 30), k = vf::side(1, 3, 5);
        double scale = std::pow(10.0, g.real(-2, 3.5));
        auto v = vf::genVals(g, r, c, k, g.chance(0.5) ? 1 : 3);
        for (auto &a: v) for (auto &b: a) for (auto &x: b) x = (float) (x * scale);
        T t = vf::full(v);
        auto ref = vf::read(t);
        vf::nontrivial(ref.hash());
        vf::sample(ref.str());
        double amax = 0, hi = -INFINITY, lo = INFINITY;
        for (auto x: ref.v) amax = std::max(amax, std::fabs(x)), hi = std::max(hi, x), lo = std::min(lo, x);
        auto m32 = materializeTensor(t, 32), m16 = materializeTensor(t, 16), m8 = materializeTensor(t, 8);
        T px = make_shared<PixelTensor>(t), view = make_shared<TransposeTensorView>(t);
        (void) view;
        int bias = 4;
        for (int b = 15; b >= 4; b--) if (lo > -std::ldexp(1.875, 14 - b) && hi < std::ldexp(1.875, 14 - b)) {
                bias = b;
                break;
            }
        double top = std::ldexp(1.875, 14 - bias), step = std::ldexp(1.0, -bias) * 1.51;
        auto r32 = vf::read(m32), r16 = vf::read(m16), r8 = vf::read(m8), rp = vf::read(px);
        for (auto *x: {&r32, &r16, &r8, &rp})
            if (!vf::check(x->r == r && x->c == c && x->k == k, "tensor:shape", ref.str())) return;
        vf::check(r32.v == ref.v, "tensor:32-bit-not-exact", ref.str());
        for (size_t i = 0; i < ref.v.size(); i++) {
            double x = ref.v[i], sat = std::max(-top, std::min(top, x));
            vf::check(std::fabs(r16.v[i] - x) <= std::fabs(x) / 127.9, "tensor:16-bit-error", num(x) + " became " + num(r16.v[i]));
            vf::check(std::fabs(r8.v[i] - sat) <= std::fabs(sat) * 0.0672 + (std::fabs(x) < step ? step : 0), "tensor:8-bit-error",
                      num(x) + " became " + num(r8.v[i]) + " at bias " + num(bias));
            double p = std::max(0.0, std::min(1.0, x));
            vf::check(std::fabs(rp.v[i] - p) <= 1.0 / 255 + 1e-6, "tensor:pixel-error", num(x) + " became " + num(rp.v[i]));
            vf::check(rp.v[i] >= 0 && rp.v[i] <= 1, "tensor:pixel-range", num(rp.v[i]));
            for (size_t j = i > 60 ? i - 60 : 0; j < i; j++) if (ref.v[j] < x) vf::check(rp.v[j] <= rp.v[i] && r16.v[j] <= r16.v[i], "tensor:order", num(ref.v[j]) + " < " + num(x));
        }
        // storing what was read changes nothing more
        auto again16 = vf::read(materializeTensor(m16, 16)), againp = vf::read(make_shared<PixelTensor>(px));
        vf::check(again16.v == r16.v, "tensor:16-bit-not-idempotent", ref.str());
        vf::check(againp.v == rp.v, "tensor:pixel-not-idempotent", rp.str() + " became " + againp.str());
        vf::count("tensors_in_four_representations");
    });
    vf::require("tensors_in_four_representations", 100);
    vf::require("quarter_arithmetic", 100);
    return vf::main();
}
