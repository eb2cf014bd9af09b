// C12: every lazy tensor operation yields, element by element, what its mathematical definition yields.
#include <bits/stdc++.h>
#include "types/tensor_impls/full_tensor.hpp"
#include "types/tensor_impls/half_tensor.hpp"
#include "types/tensor_impls/identity_tensor.hpp"
#include "types/tensor_impls/pixel_tensor.hpp"
#include "types/tensor_impls/quarter_tensor.hpp"
#include "types/tensor_impls/tensor_from_function.hpp"
#include "types/tensor_impls/tensor_from_random.hpp"
#include "types/tensor_impls/tensor_from_xavier.hpp"
#include "types/tensor_impls/uniform_tensor.hpp"
#include "types/tensor_views/absolute_tensor_view.hpp"
#include "types/tensor_views/add_tensor_view.hpp"
#include "types/tensor_views/channel_to_tensor_view.hpp"
#include "types/tensor_views/clip_tensor_view.hpp"
#include "types/tensor_views/column_flatten_tensor_view.hpp"
#include "types/tensor_views/concat_wide_tensor_view.h"
#include "types/tensor_views/denormalize_tensor_view.hpp"
#include "types/tensor_views/diagonal_tensor_view.hpp"
#include "types/tensor_views/dot_product_tensor_view.hpp"
#include "types/tensor_views/element_wise_divide_tensor_view.hpp"
#include "types/tensor_views/element_wise_inverse_tensor_view.hpp"
#include "types/tensor_views/element_wise_multiply_tensor_view.hpp"
#include "types/tensor_views/exponential_tensor_view.hpp"
#include "types/tensor_views/full_2d_convolve_tensor_view.hpp"
#include "types/tensor_views/full_2d_cross_correlation_tensor_view.hpp"
#include "types/tensor_views/inverse_tensor_view.hpp"
#include "types/tensor_views/less_than_scalar_tensor_view.hpp"
#include "types/tensor_views/log2_tensor_view.hpp"
#include "types/tensor_views/log_tensor_view.hpp"
#include "types/tensor_views/masked_select_tensor_view.hpp"
#include "types/tensor_views/matrix_divide_tensor_view.hpp"
#include "types/tensor_views/matrix_multiply_tensor_view.hpp"
#include "types/tensor_views/noop_tensor_view.hpp"
#include "types/tensor_views/normalize_tensor_view.hpp"
#include "types/tensor_views/outer_product_tensor_view.hpp"
#include "types/tensor_views/power_tensor_view.hpp"
#include "types/tensor_views/reshape_tensor_view.hpp"
#include "types/tensor_views/rotate_180_tensor_view.hpp"
#include "types/tensor_views/round_tensor_view.hpp"
#include "types/tensor_views/row_flatten_tensor_view.hpp"
#include "types/tensor_views/scalar_add_tensor_view.hpp"
#include "types/tensor_views/scalar_divide_tensor_view.hpp"
#include "types/tensor_views/scalar_multiply_tensor_view.hpp"
#include "types/tensor_views/scalar_subtract_tensor_view.hpp"
#include "types/tensor_views/softmax_derivative_tensor_view.hpp"
#include "types/tensor_views/sqrt_tensor_view.hpp"
#include "types/tensor_views/standardize_derivative_tensor_view.hpp"
#include "types/tensor_views/standardize_tensor_view.hpp"
#include "types/tensor_views/subtract_tensor_view.hpp"
#include "types/tensor_views/sum_channels_tensor_view.hpp"
#include "types/tensor_views/sum_to_channel_tensor_view.hpp"
#include "types/tensor_views/transpose_tensor_view.hpp"
#include "types/tensor_views/unstandardize_tensor_view.hpp"
#include "types/tensor_views/valid_2d_cross_correlation_tensor_view.hpp"
#include "types/tensor_views/value_transform_tensor_view.hpp"
#include "types/tensor_views/value_transform_with_double_tensor_view.hpp"
#include "types/tensor_views/window_tensor_view.hpp"
#include "types/tensor_views/zero_pad_tensor_view.hpp"
#include "util/tensor_utils.hpp"
#include "tensor_gen.hpp"

using namespace happyml;
using vf::Ref;
using vf::rng;

typedef shared_ptr<BaseTensor> T;

struct Operand {
    T t;
    Ref ref;     // what the tensor's own elements are right now
    string text;
};

// A source: a materialised tensor, or a short chain of views (whose own steps are judged in their own cases).
static Operand source(size_t r, size_t c, size_t k, int family, int depth = -1) {
    auto &g = rng();
    if (depth < 0) depth = (int) g.range(0, 2);
    Operand o;
    int how = depth == 0 ? 0 : (int) g.range(1, 8);
    switch (how) {
        case 1: {
            auto s = source(c, r, k, family, depth - 1);
            o.t = make_shared<TransposeTensorView>(s.t);
            o.text = "transpose(" + s.text + ")";
            break;
        }
        case 2: {
            auto s = source(r, c, k, family, depth - 1);
            o.t = make_shared<Rotate180TensorView>(s.t);
            o.text = "rotate180(" + s.text + ")";
            break;
        }
        case 3: {
            size_t extra = g.range(1, 3), at = g.range(0, (long long) extra);
            auto s = source(r, c + extra, k, family, depth - 1);
            o.t = make_shared<WindowTensorView>(s.t, at, at + c);
            o.text = "window(" + s.text + ")";
            break;
        }
        case 4: {
            auto s = source(c, r, k, family, depth - 1);
            o.t = make_shared<ReshapeTensorView>(s.t, r, c);
            o.text = "reshape(" + s.text + ")";
            break;
        }
        case 5: {
            auto s = source(r, c, k, family, depth - 1);
            o.t = make_shared<TensorNoOpView>(s.t);
            o.text = "noop(" + s.text + ")";
            break;
        }
        case 6: {
            if (c < 2) {
                return source(r, c, k, family, 0);
            }
            size_t left = g.range(1, (long long) c - 1);
            auto a = source(r, left, k, family, depth - 1), b = source(r, c - left, k, family, depth - 1);
            o.t = make_shared<ConcatWideTensorView>(a.t, b.t);
            o.text = "concat(" + a.text + "," + b.text + ")";
            break;
        }
        case 7: {
            auto v = vf::genVals(g, r, c, k, family);
            o.t = make_shared<TensorFromFunction>([v](size_t row, size_t col, size_t ch) { return v.at(ch).at(row).at(col); }, r, c, k);
            o.text = "function";
            break;
        }
        default: {
            o.t = vf::genTensor(g, r, c, k, family);
            o.text = "full";
        }
    }
    o.ref = vf::read(o.t);
    return o;
}

static Operand anySource(int family = -1) {
    auto &g = rng();
    if (family < 0) family = (int) g.range(0, 3);
    return source(vf::side(1, 6, 40), vf::side(1, 6, 40), vf::side(1, 3, 6), family);
}

static void judge(const string &name, const T &t, const Ref &want, const vector<double> &scale, double rtol, double atol,
                  const vector<Operand> &in, const string &extra = "", bool exact_read_twice = true) {
    auto what = [&]() {
        string s = name + " " + extra;
        for (auto &o: in) s += " of " + o.text + " " + o.ref.str();
        return s;
    };
    vf::count("view:" + name);
    vf::sample(what());
    uint64_t h = vf::hashStr(name + extra);
    for (auto &o: in) h ^= vf::mix(o.ref.hash() + h);
    vf::nontrivial(h);
    if (!vf::same(name, t, want, scale, rtol, atol, what)) return;
    // A view is a function of its operands: linear addressing, materialisation and a second read agree bit for bit.
    size_t n = want.r * want.c * want.k;
    vf::check(t->size() == n, name + ":size", what());
    auto shape = t->getShape();
    vf::check(shape.size() == 3 && shape[0] == want.r && shape[1] == want.c && shape[2] == want.k, name + ":getShape", what());
    if (n == 0) return;
    auto m = make_shared<FullTensor>(t);
    size_t i = 0;
    bool lin = true, mat = m->rowCount() == want.r && m->columnCount() == want.c && m->channelCount() == want.k;
    for (size_t ch = 0; ch < want.k && mat && lin; ch++)
        for (size_t row = 0; row < want.r && mat && lin; row++)
            for (size_t col = 0; col < want.c && mat && lin; col++, i++) {
                float a = t->getValue(row, col, ch), b = m->getValue(row, col, ch), c = t->getValue(i);
                if (memcmp(&a, &b, 4) != 0 && !(std::isnan(a) && std::isnan(b))) mat = false;
                if (memcmp(&a, &c, 4) != 0 && !(std::isnan(a) && std::isnan(c))) lin = false;
            }
    vf::check(mat, name + ":materialised", what());
    vf::check(lin, name + ":linear", what());
    for (auto &o: in) {
        vf::check(t->contains(o.t), name + ":contains", what() + ": does not know its own operand");
        auto again = vf::read(o.t);
        vf::check(again.v == o.ref.v || again.hash() == o.ref.hash(), name + ":operand-changed", what());
    }
    vf::check(t->contains(t), name + ":contains-self", what());
    auto stranger = make_shared<UniformTensor>(1, 1, 1, 0.f);
    vf::check(!t->contains(stranger), name + ":contains-stranger", what());
}

template<class F>
static void elementwise(const string &name, const Operand &s, const T &t, F f, double rtol = 1e-5, double atol = 1e-6,
                        const string &extra = "") {
    Ref want = s.ref;
    vector<double> scale;
    for (auto &x: want.v) {
        scale.push_back(std::fabs(x));
        x = f(x);
    }
    judge(name, t, want, scale, rtol, atol, {s}, extra);
}

template<class F>
static bool throwsSome(F f) {
    try {
        f();
    } catch (const std::exception &) {
        return true;
    }
    return false;
}

static string num(double d) {
    ostringstream o;
    o.precision(9);
    o << d;
    return o.str();
}

int main() {
    vf::bigEvery(8);
    vf::rule("random operand tensors (1-6 rows/columns, 1-3 channels, one case in eight up to 40 and sometimes over 256; integers, reals, wide magnitudes, sparse) that are "
             "materialised or chains of views; each view's every element, shape, linear order, materialisation and "
             "containment is compared with a reference computed in double from the operand's own elements; a case is "
             "distinct and non-trivial by operation, parameters and operand values");

    vf::section("elementwise", 1500, 40000, [] {
        auto &g = rng();
        auto s = anySource();
        float k = vf::genValue(g, (int) g.range(0, 1));
        auto add = [&](const string &n, T t, function<double(double)> f, double rt = 1e-5, double at = 1e-6) {
            elementwise(n, s, t, f, rt, at, "k=" + num(k));
        };
        switch (vf::st().index % 18) {
            case 0: add("absolute", make_shared<AbsoluteTensorView>(s.t), [](double x) { return std::fabs(x); }, 0, 0); break;
            case 1: {
                float lo = std::min(k, 0.5f), hi = std::max(k, 0.5f);
                elementwise("clip", s, make_shared<ClipTensorView>(s.t, lo, hi),
                            [&](double x) { return x < lo ? lo : x > hi ? hi : x; }, 0, 0, num(lo) + ".." + num(hi));
                break;
            }
            case 2: {
                auto p = anySource(1);
                elementwise("exponential", p, make_shared<ExponentialTensorView>(p.t), [](double x) { return std::exp(x); });
                break;
            }
            case 3: {
                auto p = anySource(4);
                elementwise("log", p, make_shared<LogTensorView>(p.t), [](double x) { return std::log(x); }, 1e-5, 1e-5);
                break;
            }
            case 4: {
                auto p = anySource(4);
                elementwise("log2", p, make_shared<Log2TensorView>(p.t), [](double x) { return std::log2(x); }, 1e-5, 1e-5);
                break;
            }
            case 5: {
                auto p = anySource(4);
                elementwise("sqrt", p, make_shared<SqrtTensorView>(p.t), [](double x) { return std::sqrt(x); });
                break;
            }
            case 6: {
                auto p = anySource(4);
                float e = (float) vf::rng().pick(vector<double>{0, 1, 2, 3, 0.5, -1, 2.5});
                elementwise("power", p, make_shared<PowerTensorView>(p.t, e), [&](double x) { return std::pow(x, (double) e); },
                            1e-4, 1e-6, "e=" + num(e));
                break;
            }
            case 7: {
                auto p = anySource(0);
                float e = (float) vf::rng().range(0, 4);
                elementwise("power-int", p, make_shared<PowerTensorView>(p.t, e), [&](double x) { return std::pow(x, (double) e); },
                            1e-5, 1e-6, "e=" + num(e));
                break;
            }
            case 8: add("less-than", make_shared<LessThanScalarTensorView>(s.t, k), [&](double x) { return x < k ? 1.0 : 0.0; }, 0, 0); break;
            case 9: add("round", make_shared<RoundTensorView>(s.t), [](double x) { return std::round(x); }, 0, 0); break;
            case 10: add("scalar-add", make_shared<ScalarAddTensorView>(s.t, k), [&](double x) { return x + k; }); break;
            case 11:
                add("scalar-subtract", make_shared<ScalarSubtractTensorView>(s.t, k), [&](double x) { return x - k; });
                add("subtract-from-scalar", make_shared<ScalarSubtractTensorView>(k, s.t), [&](double x) { return k - x; });
                break;
            case 12:
                add("scalar-multiply", make_shared<ScalarMultiplyTensorView>(s.t, k), [&](double x) { return x * k; });
                add("scalar-multiply-left", make_shared<ScalarMultiplyTensorView>(k, s.t), [&](double x) { return x * k; });
                break;
            case 13: {
                float d = k == 0 ? 2.f : k;
                elementwise("scalar-divide", s, make_shared<ScalarDivideTensorView>(s.t, d), [&](double x) { return x / d; });
                auto p = anySource(4);
                elementwise("divide-scalar-by", p, make_shared<ScalarDivideTensorView>(d, p.t), [&](double x) { return d / x; });
                break;
            }
            case 14: {
                float lo = (float) g.real(-5, 5), hi = lo + (float) g.real(0.1, 9);
                elementwise("normalize", s, make_shared<NormalizeTensorView>(s.t, lo, hi),
                            [&](double x) { return (x - lo) / ((double) hi - lo); }, 1e-4, 1e-4, num(lo) + ".." + num(hi));
                elementwise("denormalize", s, make_shared<DenormalizeTensorView>(s.t, lo, hi),
                            [&](double x) { return x * ((double) hi - lo) + lo; }, 1e-4, 1e-4, num(lo) + ".." + num(hi));
                break;
            }
            case 15: {
                float mean = (float) g.real(-5, 5), sd = (float) g.real(0.1, 9);
                elementwise("standardize", s, make_shared<StandardizeTensorView>(s.t, mean, sd),
                            [&](double x) { return (x - mean) / sd; }, 1e-4, 1e-4, num(mean) + "," + num(sd));
                elementwise("unstandardize", s, make_shared<UnstandardizeTensorView>(s.t, mean, sd),
                            [&](double x) { return x * sd + mean; }, 1e-4, 1e-4, num(mean) + "," + num(sd));
                break;
            }
            case 16:
                add("value-transform", make_shared<ValueTransformTensorView>(s.t, [](float x) { return 3 * x + 1; }),
                    [](double x) { return 3 * x + 1; });
                add("value-transform-with-double",
                    make_shared<ValueTransformWithDoubleTensorView>(s.t, [](float x, double c) { return (float) (x * c); }, 1.5),
                    [](double x) { return x * 1.5; });
                break;
            default: {
                auto p = anySource(4);
                elementwise("element-inverse", p, make_shared<ElementWiseInverseTensorView>(p.t),
                            [](double x) { return 1.0 / x; }, 1e-4, 1e-6);
            }
        }
    });

    vf::section("range-and-moments", 400, 10000, [] {
        auto &g = rng();
        auto s = source(vf::side(1, 6, 40), vf::side(2, 6, 40), vf::side(1, 3, 6), (int) g.range(0, 2));
        double lo = 1e300, hi = -1e300, sum = 0;
        for (auto x: s.ref.v) lo = std::min(lo, x), hi = std::max(hi, x), sum += x;
        if (!(hi > lo)) return;
        double mean = sum / s.ref.v.size(), var = 0, amax = 0;
        for (auto x: s.ref.v) var += (x - mean) * (x - mean), amax = std::max(amax, std::fabs(x));
        double sd = std::sqrt(var / s.ref.v.size());
        elementwise("normalize-own-range", s, make_shared<NormalizeTensorView>(s.t), [&](double x) { return (x - lo) / (hi - lo); },
                    1e-4, 1e-4);
        if (sd > amax * 1e-3)
            elementwise("standardize-own-moments", s, make_shared<StandardizeTensorView>(s.t),
                        [&](double x) { return (x - mean) / sd; }, 1e-3, 1e-3);
        auto u = make_shared<UniformTensor>(s.ref.r, s.ref.c, s.ref.k, (float) g.range(-3, 3));
        T z = make_shared<StandardizeTensorView>(u);
        bool zero = true;
        for (size_t i = 0; i < z->size(); i++) zero &= std::fabs(z->getValue(i)) < 1e-4;
        vf::check(zero, "standardize-constant", "standardising a constant tensor does not give zeros");
    });

    vf::section("binary", 900, 20000, [] {
        auto &g = rng();
        size_t r = vf::side(1, 6, 40), c = vf::side(1, 6, 40), k = vf::side(1, 3, 6);
        int fam = (int) g.range(0, 3);
        auto a = source(r, c, k, fam), b = source(r, c, k, g.chance(0.5) ? fam : 4);
        Ref want = a.ref;
        vector<double> scale(want.v.size());
        for (size_t i = 0; i < scale.size(); i++) scale[i] = std::max(std::fabs(a.ref.v[i]), std::fabs(b.ref.v[i]));
        auto f = [&](const string &n, T t, function<double(double, double)> op, double rt) {
            Ref w = want;
            for (size_t i = 0; i < w.v.size(); i++) w.v[i] = op(a.ref.v[i], b.ref.v[i]);
            judge(n, t, w, n == "add" || n == "subtract" ? scale : vector<double>(), rt, 1e-6, {a, b});
        };
        f("add", make_shared<AddTensorView>(a.t, b.t), [](double x, double y) { return x + y; }, 1e-5);
        f("subtract", make_shared<SubtractTensorView>(a.t, b.t), [](double x, double y) { return x - y; }, 1e-5);
        f("multiply", make_shared<ElementWiseMultiplyTensorView>(a.t, b.t), [](double x, double y) { return x * y; }, 1e-5);
        bool zero = false;
        for (auto y: b.ref.v) zero |= std::fabs(y) < 1e-6;
        if (!zero) f("divide", make_shared<ElementWiseDivideTensorView>(a.t, b.t), [](double x, double y) { return x / y; }, 1e-5);
        else {
            // division by an exact zero stays finite (the documented guard)
            T d = make_shared<ElementWiseDivideTensorView>(a.t, b.t);
            bool finite = true;
            for (size_t i = 0; i < d->size(); i++) if (b.ref.v[i] == 0 && !std::isfinite(d->getValue(i))) finite = false;
            vf::check(finite, "divide:zero-denominator", "dividing by an exact zero is not finite");
            vf::count("zero_denominators");
        }
        // masked select: mask above the discriminator takes the second operand, otherwise the third
        auto m = source(r, c, k, 3);
        float disc = g.chance(0.5) ? 0.f : (float) g.real(-1, 1);
        Ref w = want;
        for (size_t i = 0; i < w.v.size(); i++) w.v[i] = m.ref.v[i] > disc ? a.ref.v[i] : b.ref.v[i];
        judge("masked-select", make_shared<MaskedSelectTensorView>(m.t, a.t, b.t, disc), w, {}, 0, 0, {m, a, b}, "disc=" + num(disc));
        // shapes that do not fit are refused, not read out of bounds
        size_t r2 = r + (g.chance(0.5) ? 1 : 0), c2 = c + (r2 == r ? 1 : g.range(0, 1));
        auto wrong = source(r2, c2, k, fam, 0);
        auto wrongk = source(r, c, k + 1, fam, 0);
        for (auto &x: {wrong, wrongk}) {
            vf::check(throwsSome([&] { make_shared<AddTensorView>(a.t, x.t); }), "add:accepts-mismatch", x.ref.str());
            vf::check(throwsSome([&] { make_shared<SubtractTensorView>(a.t, x.t); }), "subtract:accepts-mismatch", x.ref.str());
            vf::check(throwsSome([&] { make_shared<ElementWiseMultiplyTensorView>(a.t, x.t); }), "multiply:accepts-mismatch", x.ref.str());
            vf::check(throwsSome([&] { make_shared<ElementWiseDivideTensorView>(a.t, x.t); }), "divide:accepts-mismatch", x.ref.str());
        }
    });

    vf::section("shape", 1200, 24000, [] {
        auto &g = rng();
        auto s = anySource();
        size_t r = s.ref.r, c = s.ref.c, k = s.ref.k;
        switch (vf::st().index % 12) {
            case 0: {
                Ref w = Ref::make(c, r, k);
                for (size_t ch = 0; ch < k; ch++) for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) w.at(j, i, ch) = s.ref.at(i, j, ch);
                judge("transpose", make_shared<TransposeTensorView>(s.t), w, {}, 0, 0, {s});
                break;
            }
            case 1: {
                Ref w = s.ref;
                for (size_t ch = 0; ch < k; ch++) for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) w.at(i, j, ch) = s.ref.at(r - 1 - i, c - 1 - j, ch);
                judge("rotate180", make_shared<Rotate180TensorView>(s.t), w, {}, 0, 0, {s});
                break;
            }
            case 2: {
                size_t t = vf::side(0, 3, 20), b = vf::side(0, 3, 20), l = vf::side(0, 3, 20), rt = vf::side(0, 3, 20);
                Ref w = Ref::make(r + t + b, c + l + rt, k);
                for (size_t ch = 0; ch < k; ch++) for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) w.at(i + t, j + l, ch) = s.ref.at(i, j, ch);
                judge("zero-pad", make_shared<ZeroPadTensorView>(s.t, t, b, l, rt), w, {}, 0, 0, {s});
                break;
            }
            case 3: {
                size_t a = g.range(0, (long long) c - 1), b = g.range((long long) a + 1, (long long) c);
                Ref w = Ref::make(r, b - a, k);
                for (size_t ch = 0; ch < k; ch++) for (size_t i = 0; i < r; i++) for (size_t j = a; j < b; j++) w.at(i, j - a, ch) = s.ref.at(i, j, ch);
                judge("window", make_shared<WindowTensorView>(s.t, a, b), w, {}, 0, 0, {s}, num(a) + ".." + num(b));
                vf::check(throwsSome([&] { make_shared<WindowTensorView>(s.t, a, c + 1); }), "window:accepts-overrun", s.ref.str());
                vf::check(throwsSome([&] { make_shared<WindowTensorView>(s.t, b, a); }), "window:accepts-empty", s.ref.str());
                break;
            }
            case 4: {
                Ref w = Ref::make(r * c * k, 1, 1);
                w.v = s.ref.v;
                judge("column-flatten", make_shared<ColumnFlattenTensorView>(s.t), w, {}, 0, 0, {s});
                w = Ref::make(1, r * c * k, 1);
                w.v = s.ref.v;
                judge("row-flatten", make_shared<RowFlattenTensorView>(s.t), w, {}, 0, 0, {s});
                break;
            }
            case 5: {
                vector<pair<size_t, size_t>> opts;
                for (size_t i = 1; i <= r * c; i++) if (r * c % i == 0) opts.push_back({i, r * c / i});
                auto p = g.pick(opts);
                Ref w = Ref::make(p.first, p.second, k);
                w.v = s.ref.v;
                judge("reshape", make_shared<ReshapeTensorView>(s.t, p.first, p.second), w, {}, 0, 0, {s});
                judge("reshape-channels", make_shared<ReshapeTensorView>(s.t, p.first, p.second, k), w, {}, 0, 0, {s});
                vf::check(throwsSome([&] { make_shared<ReshapeTensorView>(s.t, p.first + 1, p.second); }), "reshape:accepts-mismatch", s.ref.str());
                break;
            }
            case 6: {
                auto b = source(r, vf::side(1, 5, 40), k, 0);
                Ref w = Ref::make(r, c + b.ref.c, k);
                for (size_t ch = 0; ch < k; ch++) for (size_t i = 0; i < r; i++) for (size_t j = 0; j < w.c; j++)
                            w.at(i, j, ch) = j < c ? s.ref.at(i, j, ch) : b.ref.at(i, j - c, ch);
                judge("concat", make_shared<ConcatWideTensorView>(s.t, b.t), w, {}, 0, 0, {s, b});
                auto bad = source(r + 1, 2, k, 0, 0);
                vf::check(throwsSome([&] { make_shared<ConcatWideTensorView>(s.t, bad.t); }), "concat:accepts-mismatch", s.ref.str());
                break;
            }
            case 7: {
                size_t ch = g.range(0, (long long) k - 1);
                Ref w = Ref::make(r, c, 1);
                for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) w.at(i, j, 0) = s.ref.at(i, j, ch);
                judge("channel", make_shared<ChannelToTensorView>(s.t, ch), w, {}, 0, 0, {s}, num(ch));
                break;
            }
            case 8: {
                size_t n = vf::side(1, 4, 20), at = g.range(0, (long long) n - 1);
                Ref w = Ref::make(r, c, n), one = Ref::make(r, c, 1);
                vector<double> sc(w.v.size(), 0), sc1(one.v.size(), 0);
                for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) for (size_t ch = 0; ch < k; ch++) {
                            w.at(i, j, at) += s.ref.at(i, j, ch);
                            one.at(i, j, 0) += s.ref.at(i, j, ch);
                            sc[(at * r + i) * c + j] += std::fabs(s.ref.at(i, j, ch));
                            sc1[i * c + j] += std::fabs(s.ref.at(i, j, ch));
                        }
                judge("sum-to-channel", make_shared<SumToChannelTensorView>(s.t, at, n), w, sc, 1e-5, 1e-6, {s}, num(at) + "/" + num(n));
                judge("sum-channels", make_shared<SumChannelsTensorView>(s.t), one, sc1, 1e-5, 1e-6, {s});
                break;
            }
            case 9: {
                vf::probe("diagonal");
                auto v = source(1, vf::side(1, 6, 40), g.range(1, 2), 0);
                size_t n = v.ref.c;
                Ref w = Ref::make(n, n, v.ref.k);
                for (size_t ch = 0; ch < v.ref.k; ch++) for (size_t i = 0; i < n; i++) w.at(i, i, ch) = v.ref.at(0, i, ch);
                judge("diagonal", make_shared<DiagonalTensorView>(v.t), w, {}, 0, 0, {v});
                break;
            }
            case 10: {
                Ref w = Ref::make(r, c, k);
                for (size_t ch = 0; ch < k; ch++) for (size_t i = 0; i < r && i < c; i++) w.at(i, i, ch) = 1;
                judge("identity", make_shared<IdentityTensor>(r, c, k), w, {}, 0, 0, {}, num(r) + "x" + num(c) + "x" + num(k));
                float val = vf::genValue(g, 2);
                for (auto &x: w.v) x = val;
                judge("uniform", make_shared<UniformTensor>(r, c, k, val), w, {}, 0, 0, {}, num(val));
                judge("uniform-shape", make_shared<UniformTensor>(vector<size_t>{r, c, k}, val), w, {}, 0, 0, {}, num(val));
                break;
            }
            default: {
                // pseudo-random sources: inside the requested range, a pure function of position and seed
                float lo = (float) g.real(-10, 10), hi = lo + (float) g.real(0.01, 20);
                uint32_t seed = (uint32_t) g.next();
                T a = make_shared<TensorFromRandom>(r, c, k, lo, hi, seed), b = make_shared<TensorFromRandom>(r, c, k, lo, hi, seed);
                float half_range = std::sqrt(2.0f / (float) (r + c)) / 2.0f;
                T xa = make_shared<TensorFromXavier>(r, c, k, seed), xb = make_shared<TensorFromXavier>(r, c, k, seed);
                bool in = true, same = true, xin = true, xsame = true;
                set<float> distinct;
                for (size_t i = 0; i < a->size(); i++) {
                    float x = a->getValue(i), y = xa->getValue(i);
                    distinct.insert(x);
                    in &= x >= lo - 1e-4 && x <= hi + 1e-4;
                    same &= x == b->getValue(i) && x == a->getValue(i);
                    xin &= std::fabs(y) <= half_range * 1.0001;
                    xsame &= y == xb->getValue(i);
                }
                string w = num(lo) + ".." + num(hi) + " seed " + num(seed);
                vf::check(in, "random:out-of-range", w);
                vf::check(same, "random:not-repeatable", w);
                vf::check(xin, "xavier:out-of-range", w);
                vf::check(xsame, "xavier:not-repeatable", w);
                vf::check(a->size() < 9 || distinct.size() > 1, "random:constant", w);
                vf::count("view:random");
            }
        }
    });

    vf::section("products", 700, 14000, [] {
        auto &g = rng();
        size_t r = vf::side(1, 6, 24), n = vf::side(1, 8, 60), c = vf::side(1, 6, 24), k = vf::side(1, 3, 5);
        int fam = (int) g.range(0, 3);
        auto a = source(r, n, k, fam), b = source(n, c, k, fam);
        Ref w = Ref::make(r, c, k);
        vector<double> sc(w.v.size());
        for (size_t ch = 0; ch < k; ch++) for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) for (size_t x = 0; x < n; x++) {
                        double p = a.ref.at(i, x, ch) * b.ref.at(x, j, ch);
                        w.at(i, j, ch) += p;
                        sc[(ch * r + i) * c + j] += std::fabs(p);
                    }
        judge("matmul", make_shared<MatrixMultiplyTensorView>(a.t, b.t), w, sc, 1e-5, 1e-6, {a, b});
        auto bad = source(n + 1, c, k, 0, 0), badk = source(n, c, k + 1, 0, 0);
        vf::check(throwsSome([&] { make_shared<MatrixMultiplyTensorView>(a.t, bad.t); }), "matmul:accepts-mismatch", a.ref.str());
        vf::check(throwsSome([&] { make_shared<MatrixMultiplyTensorView>(a.t, badk.t); }), "matmul:accepts-mismatch", a.ref.str());
        auto col = source(r, 1, k, fam), row = source(1, c, k, fam);
        Ref o = Ref::make(r, c, k);
        for (size_t ch = 0; ch < k; ch++) for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) o.at(i, j, ch) = col.ref.at(i, 0, ch) * row.ref.at(0, j, ch);
        judge("outer-product", make_shared<OuterProductTensorView>(col.t, row.t), o, {}, 1e-5, 1e-6, {col, row});
        auto v1 = source(1, n, 1, fam), v2 = source(1, n, 1, fam);
        Ref d = Ref::make(1, 1, 1);
        double ds = 0;
        for (size_t x = 0; x < n; x++) d.v[0] += v1.ref.v[x] * v2.ref.v[x], ds += std::fabs(v1.ref.v[x] * v2.ref.v[x]);
        judge("dot", make_shared<DotProductTensorView>(v1.t, v2.t), d, {ds}, 1e-5, 1e-6, {v1, v2});
        auto v3 = source(1, n + 1, 1, fam, 0);
        vf::check(throwsSome([&] { make_shared<DotProductTensorView>(v1.t, v3.t); }), "dot:accepts-mismatch", v1.ref.str());
    });

    vf::section("inverse", 300, 6000, [] {
        auto &g = rng();
        size_t n = vf::side(1, 5, 20), k = g.range(1, 2);
        // diagonally dominant, then rows permuted: invertible, well conditioned, and often needing a row exchange
        vf::Vals v(k, vector<vector<float>>(n, vector<float>(n)));
        bool permute = g.chance(0.5);
        for (auto &m: v) {
            for (size_t i = 0; i < n; i++) {
                double s = 0;
                for (size_t j = 0; j < n; j++) {
                    m[i][j] = permute ? 0.f : (float) g.real(-1, 1);
                    s += std::fabs(m[i][j]);
                }
                m[i][i] = (float) ((s + g.real(0.5, 2)) * (g.chance(0.5) ? 1 : -1));
            }
            if (permute) g.shuffle(m);
        }
        Operand s;
        s.t = vf::full(v);
        s.ref = vf::read(s.t);
        s.text = "full";
        T inv = make_shared<InverseTensorView>(s.t);
        if (!vf::check(inv->rowCount() == n && inv->columnCount() == n && inv->channelCount() == k, "inverse:shape", s.ref.str())) return;
        Ref prod = Ref::make(n, n, k), eye = prod;
        auto ri = vf::read(inv);
        double worst = 0;
        for (size_t ch = 0; ch < k; ch++) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
                    double p = 0;
                    for (size_t x = 0; x < n; x++) p += s.ref.at(i, x, ch) * ri.at(x, j, ch);
                    worst = std::max(worst, std::fabs(p - (i == j)));
                }
        vf::check(worst < 1e-3, "inverse:not-inverse", "A*inverse(A) differs from the identity by " + num(worst) + " for " + s.ref.str());
        vf::count("view:inverse");
        vf::nontrivial(s.ref.hash());
        // left / right is left * inverse(right)
        auto l = source(n, n, k, (int) g.range(0, 1));
        Ref w = Ref::make(n, n, k);
        vector<double> sc(w.v.size());
        for (size_t ch = 0; ch < k; ch++) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t x = 0; x < n; x++) {
                        w.at(i, j, ch) += l.ref.at(i, x, ch) * ri.at(x, j, ch);
                        sc[(ch * n + i) * n + j] += std::fabs(l.ref.at(i, x, ch) * ri.at(x, j, ch));
                    }
        T div = make_shared<MatrixDivideTensorView>(l.t, s.t);
        vf::same("matrix-divide", div, w, sc, 1e-3, 1e-4, [&] { return "matrix division of " + l.ref.str() + " by " + s.ref.str(); });
        vf::count("view:matrix-divide");
        // a singular matrix is refused
        for (auto &m: v) for (size_t i = 0; i < n; i++) m[i][n - 1] = 0.f;
        auto sing = vf::full(v);
        vf::check(throwsSome([&] { make_shared<InverseTensorView>(sing); }), "inverse:accepts-singular", vf::read(sing).str());
    });

    vf::section("correlation", 700, 14000, [] {
        auto &g = rng();
        size_t kr = vf::side(1, 6, 11), kc = g.chance(0.7) ? kr : g.range(1, 5), r = kr + vf::side(0, 5, 14), c = kc + vf::side(0, 5, 14), k = vf::side(1, 3, 4);
        int fam = (int) g.range(0, 3);
        auto s = source(r, c, k, fam), w = source(kr, kc, k, fam);
        {
            Ref o = Ref::make(r - kr + 1, c - kc + 1, k);
            vector<double> sc(o.v.size());
            size_t e = 0;
            for (size_t ch = 0; ch < k; ch++) for (size_t i = 0; i < o.r; i++) for (size_t j = 0; j < o.c; j++, e++)
                        for (size_t x = 0; x < kr; x++) for (size_t y = 0; y < kc; y++) {
                                double p = s.ref.at(i + x, j + y, ch) * w.ref.at(x, y, ch);
                                o.v[e] += p, sc[e] += std::fabs(p);
                            }
            judge("valid-correlation", make_shared<Valid2DCrossCorrelationTensorView>(s.t, w.t), o, sc, 1e-5, 1e-6, {s, w});
        }
        for (int flip = 0; flip < 2; flip++) {
            // full: the kernel overlaps the input in every possible position, by at least one element
            Ref o = Ref::make(r + kr - 1, c + kc - 1, k);
            vector<double> sc(o.v.size());
            size_t e = 0;
            for (size_t ch = 0; ch < k; ch++) for (size_t i = 0; i < o.r; i++) for (size_t j = 0; j < o.c; j++, e++)
                        for (size_t x = 0; x < kr; x++) for (size_t y = 0; y < kc; y++) {
                                long long a = (long long) i + (long long) x - (long long) (kr - 1), b = (long long) j + (long long) y - (long long) (kc - 1);
                                if (a < 0 || b < 0 || a >= (long long) r || b >= (long long) c) continue;
                                double p = s.ref.at(a, b, ch) * (flip ? w.ref.at(kr - 1 - x, kc - 1 - y, ch) : w.ref.at(x, y, ch));
                                o.v[e] += p, sc[e] += std::fabs(p);
                            }
            T t;
            if (flip) t = make_shared<Full2DConvolveTensorView>(s.t, w.t);
            else t = make_shared<Full2DCrossCorrelationTensorView>(s.t, w.t);
            string n = flip ? "full-convolution" : "full-correlation";
            vf::same(n, t, o, sc, 1e-5, 1e-6, [&] { return n + " of " + s.ref.str() + " with " + w.ref.str(); });
            vf::count("view:" + n);
        }
    });

    for (auto n: {"absolute", "clip", "exponential", "log", "log2", "sqrt", "power", "less-than", "round", "scalar-add",
                  "scalar-subtract", "scalar-multiply", "scalar-divide", "normalize", "denormalize", "standardize",
                  "unstandardize", "value-transform", "element-inverse", "normalize-own-range", "standardize-own-moments",
                  "add", "subtract", "multiply", "divide", "masked-select", "transpose", "rotate180", "zero-pad", "window",
                  "column-flatten", "row-flatten", "reshape", "concat", "channel", "sum-to-channel", "sum-channels",
                  "diagonal", "identity", "uniform", "random", "matmul", "outer-product", "dot", "inverse", "matrix-divide",
                  "valid-correlation", "full-convolution", "full-correlation"})
        vf::require(string("view:") + n, 5);
    return vf::main();
}
