// C13: every aggregate, statistic and index query over a tensor agrees with its definition.
#include <bits/stdc++.h>
#include "types/quarter_float.hpp"
#include "types/tensor_impls/full_tensor.hpp"
#include "types/tensor_impls/tensor_from_function.hpp"
#include "types/tensor_views/transpose_tensor_view.hpp"
#include "types/tensor_views/noop_tensor_view.hpp"
#include "util/tensor_utils.hpp"
#include "util/tensor_stats.hpp"
#include "tensor_gen.hpp"

using namespace happyml;
using vf::Ref;
using vf::rng;
typedef shared_ptr<BaseTensor> T;

static T gen(Ref &ref, int &family) {
    auto &g = rng();
    size_t r = vf::side(1, 7, 40), c = vf::side(1, 9, 50), k = vf::side(1, 4, 8);
    family = (int) g.range(0, 8);
    vf::Vals v;
    if (family <= 5) v = vf::genVals(g, r, c, k, family);
    else if (family == 6) { // all negative
        v = vf::genVals(g, r, c, k, 4);
        for (auto &a: v) for (auto &b: a) for (auto &x: b) x = -x - 0.5f;
    } else if (family == 7) { // constant
        float x = vf::genValue(g, (int) g.range(0, 2));
        v = vf::Vals(k, vector<vector<float>>(r, vector<float>(c, x)));
    } else { // a big common offset with small variation
        v = vf::genVals(g, r, c, k, 1);
        for (auto &a: v) for (auto &b: a) for (auto &x: b) x += 1000.f;
    }
    T t = vf::full(v);
    ref = vf::read(t);
    if (g.chance(0.4)) t = make_shared<TensorNoOpView>(t);
    return t;
}

static string num(double d) {
    ostringstream o;
    o.precision(9);
    o << d;
    return o.str();
}

static void cmp(const string &key, double got, double want, double tol, const Ref &r) {
    vf::count("query:" + key);
    bool ok = std::isnan(want) ? std::isnan(got) : (std::isfinite(want) ? std::fabs(got - want) <= tol : got == want);
    vf::check(ok, key, key + " is " + num(got) + ", the definition gives " + num(want) + " for " + r.str());
}

int main() {
    vf::bigEvery(12);
    vf::rule("random tensors (up to 7x9x4, one case in twelve up to 40x50x8 and sometimes over 256 wide) of nine value families (integers with ties, reals, wide magnitudes, sparse, "
             "positive, binary, all negative, constant, large offset), read through a view or directly; every query is "
             "compared with a two-pass reference in double; distinct by element values");
    vf::section("aggregates", 3000, 60000, [] {
        Ref r;
        int family;
        T t = gen(r, family);
        vf::nontrivial(r.hash());
        vf::sample(r.str());
        double n = (double) r.v.size(), sum = 0, absum = 0, prod = 1, mx = -INFINITY, mn = INFINITY, ma = 0;
        for (auto x: r.v) sum += x, absum += std::fabs(x), prod *= x, mx = std::max(mx, x), mn = std::min(mn, x), ma = std::max(ma, std::fabs(x));
        double mean = sum / n, var = 0, sq = 0;
        for (auto x: r.v) var += (x - mean) * (x - mean), sq += x * x;
        var /= n;
        cmp("sum", t->sum(), sum, 1e-5 * absum + 1e-6, r);
        cmp("product", t->product(), prod, 1e-5 * std::fabs(prod) + 1e-30, r);
        cmp("max", t->max(), mx, 0, r);
        cmp("min", t->min(), mn, 0, r);
        cmp("max_abs", t->max_abs(), ma, 0, r);
        auto range = t->range();
        cmp("range-low", range.first, mn, 0, r);
        cmp("range-high", range.second, mx, 0, r);
        cmp("mean", t->arithmeticMean(), mean, 1e-5 * ma + 1e-6, r);
        double point = rng().real(-3, 3), vp = 0;
        for (auto x: r.v) vp += (x - point) * (x - point);
        cmp("variance-about-point", t->variance_point((float) point), vp / n, 1e-4 * (vp / n) + 1e-6 + 1e-5 * ma * ma, r);
        cmp("variance", t->variance(), var, 1e-4 * var + 1e-6 + 1e-6 * ma * ma, r);
        cmp("standard-deviation", t->standardDeviation(), std::sqrt(var), 1e-4 * std::sqrt(var) + 1e-5 + 1e-6 * ma, r);
        cmp("euclidean-norm", t->euclidean_norm(), std::sqrt(sq), 1e-4 * std::sqrt(sq) + 1e-12, r);
        bool positive = true;
        double logs = 0;
        for (auto x: r.v) if (x <= 0) positive = false; else logs += std::log(x);
        cmp("geometric-mean", t->geometricMean(), positive ? std::exp(logs / n) : NAN, positive ? 1e-4 * std::exp(logs / n) : 0, r);
        vf::check(!t->hasNaNOrInf(), "finite-reported-as-not", r.str());
        auto sp = r;
        size_t at = (size_t) rng().range(0, (long long) r.v.size() - 1);
        sp.v[at] = rng().pick(vector<double>{NAN, INFINITY, -INFINITY});
        auto bad = make_shared<TensorFromFunction>([sp](size_t row, size_t col, size_t ch) { return (float) sp.at(row, col, ch); }, r.r, r.c, r.k);
        vf::check(bad->hasNaNOrInf(), "non-finite-missed", "element " + num(at) + " of " + sp.str());
        vf::check(hasInvalidValues(bad) && !hasInvalidValues(t), "invalid-values", sp.str());
        vf::count("query:non-finite");
        auto same = vf::full({{{1}}});
        bool eq = true, ne = false;
        try { assertEqual(t, t); } catch (const std::exception &) { eq = false; }
        auto other = r;
        other.v[at] += 1.0 + std::fabs(other.v[at]) * 0.5;
        T ot = make_shared<TensorFromFunction>([other](size_t row, size_t col, size_t ch) { return (float) other.at(row, col, ch); }, r.r, r.c, r.k);
        try { assertEqual(t, ot); } catch (const std::exception &) { ne = true; }
        vf::check(eq, "assert-equal-self", r.str());
        vf::check(ne, "assert-equal-different", "differs at " + num(at) + " of " + r.str());
        vf::check(scalar(t) == (float) r.v[0], "scalar", r.str());
    });
    vf::section("rows-and-indices", 3000, 60000, [] {
        auto &g = rng();
        Ref r;
        int family;
        T t = gen(r, family);
        vf::nontrivial(r.hash());
        size_t row = g.range(0, (long long) r.r - 1), ch = g.range(0, (long long) r.k - 1), col = g.range(0, (long long) r.c - 1);
        string where = " (row " + num(row) + ", channel " + num(ch) + ") of " + r.str();
        vector<double> line;
        for (size_t c = 0; c < r.c; c++) line.push_back(r.at(row, c, ch));
        auto values = t->getRowValues(row, ch);
        bool ok = values.size() == line.size();
        for (size_t i = 0; ok && i < line.size(); i++) ok = values[i] == (float) line[i];
        vf::check(ok, "row-values", "getRowValues" + where);
        vf::count("query:row-values");
        if (ch > 0) vf::count("row_values_of_a_later_channel");
        double mx = *max_element(line.begin(), line.end()), mn = *min_element(line.begin(), line.end());
        auto at = [&](size_t i) { return i < line.size() ? line[i] : NAN; };
        // ties: any index holding the extreme value is right for the single-index queries
        vf::check(at(t->maxIndexByRow(ch, row)) == mx, "max-index-by-row", "maxIndexByRow" + where);
        vf::check(at(t->minIndex(ch, row)) == mn, "min-index", "minIndex" + where);
        vector<size_t> wmax, wmin;
        for (size_t i = 0; i < line.size(); i++) {
            if (line[i] == mx) wmax.push_back(i);
            if (line[i] == mn) wmin.push_back(i);
        }
        auto gmax = t->maxIndices(ch, row), gmin = t->minIndices(ch, row);
        sort(gmax.begin(), gmax.end());
        sort(gmin.begin(), gmin.end());
        vf::check(gmax == wmax, "max-indices", "maxIndices" + where);
        vf::check(gmin == wmin, "min-indices", "minIndices" + where);
        if (wmax.size() > 1) vf::count("ties_seen");
        double cmax = -INFINITY;
        for (size_t i = 0; i < r.r; i++) cmax = std::max(cmax, r.at(i, col, ch));
        auto mi = t->maxIndexByCol(ch, col);
        vf::check(mi < r.r && r.at(mi, col, ch) == cmax, "max-index-by-column", "maxIndexByCol column " + num(col) + where);
        vf::check(r.at(0, maxIndex(t), 0) == [&] {
            double m = -INFINITY;
            for (size_t i = 0; i < r.c; i++) m = std::max(m, r.at(0, i, 0));
            return m;
        }(), "max-index", "maxIndex of " + r.str());
        size_t want = g.range(0, (long long) r.c + 2);
        auto top = t->topIndices(want, ch, row);
        bool good = top.size() == std::min(want, r.c);
        auto sorted = line;
        sort(sorted.rbegin(), sorted.rend());
        set<size_t> used;
        for (size_t i = 0; good && i < top.size(); i++) {
            good = top[i].getValue() == (float) sorted[i] && top[i].getIndex() < r.c && line[top[i].getIndex()] == sorted[i] &&
                   used.insert(top[i].getIndex()).second;
        }
        vf::check(good, "top-indices", "topIndices " + num(want) + where);
        vf::count("query:top-indices");
    });
    vf::section("running-values", 600, 12000, [] {
        // the running mean/deviation/range used to prepare whole data sets
        auto &g = rng();
        size_t n = vf::side(1, 12, 60);
        vector<T> ts;
        vector<double> all;
        auto run = make_shared<StandardizationAndNormalizationValues>();
        int fam = (int) g.range(0, 4);
        string text;
        for (size_t i = 0; i < n; i++) {
            T t = vf::genTensor(g, vf::side(1, 3, 9), vf::side(1, 4, 9), g.range(1, 2), fam);
            auto r = vf::read(t);
            all.insert(all.end(), r.v.begin(), r.v.end());
            text += r.str() + " ";
            ts.push_back(t);
            update_standardization_normalization_values_calculation(run, t);
        }
        vf::nontrivial(text);
        double mean = 0, var = 0, lo = INFINITY, hi = -INFINITY, amax = 0;
        for (auto x: all) mean += x, lo = std::min(lo, x), hi = std::max(hi, x), amax = std::max(amax, std::fabs(x));
        mean /= (double) all.size();
        for (auto x: all) var += (x - mean) * (x - mean);
        double sd = std::sqrt(var / (double) all.size());
        Ref none;
        double tol = 1e-5 * amax + 1e-6;
        cmp("running-mean", run->mean_result, mean, tol, none);
        cmp("running-deviation", run->standard_deviation, sd, 10 * tol, none);
        cmp("running-min", run->min_value, lo, 0, none);
        cmp("running-max", run->max_value, hi, 0, none);
        float m, s, a, b;
        calcStandardizationValuesForEntireSet(ts, m, s);
        calcNormalizationValuesForEntireSet(ts, a, b);
        cmp("set-mean", m, mean, tol, none);
        cmp("set-deviation", s, sd, 10 * tol, none);
        cmp("set-min", a, lo, 0, none);
        cmp("set-max", b, hi, 0, none);
    });
    vf::section("fit-statistics", 400, 8000, [] {
        // the recommended 8-bit exponent bias can represent the part of the data it was asked to fit
        auto &g = rng();
        size_t r = vf::side(2, 8, 40), c = vf::side(2, 8, 40), k = g.range(1, 2);
        double scale = std::pow(10.0, g.real(-3, 3.2));
        auto v = vf::genVals(g, r, c, k, 1);
        for (auto &a: v) for (auto &b: a) for (auto &x: b) x = (float) (x * scale);
        T t = vf::full(v);
        auto ref = vf::read(t);
        vf::nontrivial(ref.hash());
        TensorStats st(*t, FIT_BIAS_FOR_100);
        double need = 0;
        for (auto x: ref.v) need = std::max(need, std::fabs(x));
        int b = st.getRecommendedBias();
        bool known = b == 14 || b == 8 || b == 4 || b == 1 || b == -4;
        double range = std::fabs((double) quarterToFloat(QUARTER_MAX, b) - (double) quarterToFloat(QUARTER_MIN, b));
        double lo = 0, hi = 0;
        for (auto x: ref.v) lo = std::min(lo, x), hi = std::max(hi, x);
        vf::check(known && (b == -4 || range >= (hi - lo) * 0.99), "fit-bias", "bias " + num(b) + " spans " + num(range) + " for " + ref.str());
        vf::count("query:fit-bias");
    });
    for (auto n: {"sum", "product", "max", "min", "max_abs", "mean", "variance", "standard-deviation", "euclidean-norm",
                  "geometric-mean", "non-finite", "row-values", "top-indices", "running-mean", "set-max", "fit-bias"})
        vf::require(string("query:") + n, 50);
    vf::require("ties_seen", 50);
    vf::require("row_values_of_a_later_channel", 50);
    return vf::main();
}
