// random source tensors and a plain reference representation
#ifndef VF_TENSOR_GEN_HPP
#define VF_TENSOR_GEN_HPP

#include "common.hpp"

namespace vf {
    using T = std::shared_ptr<happyml::BaseTensor>;
    using Vals = std::vector<std::vector<std::vector<float>>>; // channel, row, column

    struct Ref {
        size_t r = 0, c = 0, k = 0;
        std::vector<double> v; // channel-major, then row, then column
        double &at(size_t row, size_t col, size_t ch) { return v[(ch * r + row) * c + col]; }

        double at(size_t row, size_t col, size_t ch) const { return v[(ch * r + row) * c + col]; }

        static Ref make(size_t r, size_t c, size_t k) {
            Ref x;
            x.r = r;
            x.c = c;
            x.k = k;
            x.v.assign(r * c * k, 0.0);
            return x;
        }

        std::string str() const {
            std::ostringstream o;
            o << r << "x" << c << "x" << k << "[";
            for (size_t i = 0; i < v.size() && i < 24; i++) o << (i ? "," : "") << v[i];
            o << (v.size() > 24 ? ",...]" : "]");
            return o.str();
        }

        uint64_t hash() const {
            uint64_t d[3] = {r, c, k};
            return hashBytes(v.data(), v.size() * sizeof(double), hashBytes(d, sizeof d));
        }
    };

    inline Ref read(const T &t) {
        Ref x = Ref::make(t->rowCount(), t->columnCount(), t->channelCount());
        for (size_t ch = 0; ch < x.k; ch++)
            for (size_t row = 0; row < x.r; row++)
                for (size_t col = 0; col < x.c; col++) x.at(row, col, ch) = t->getValue(row, col, ch);
        return x;
    }

    // value families: what makes a tensor a hostile one
    inline float genValue(Rng &g, int family) {
        switch (family) {
            case 0:
                return (float) g.range(-9, 9);
            case 1:
                return (float) g.real(-1, 1);
            case 2:
                return (float) (g.real(-1, 1) * std::pow(10.0, g.real(-6, 5)));
            case 3:
                return g.chance(0.6) ? 0.f : (float) g.real(-3, 3);
            case 4:
                return (float) g.real(0.001, 1);
            default:
                return (float) g.range(0, 1);
        }
    }

    inline Vals genVals(Rng &g, size_t r, size_t c, size_t k, int family) {
        Vals v(k, std::vector<std::vector<float>>(r, std::vector<float>(c)));
        for (auto &a: v) for (auto &b: a) for (auto &x: b) x = genValue(g, family);
        return v;
    }

    inline T full(const Vals &v) { return std::make_shared<happyml::FullTensor>(v); }

    inline T genTensor(Rng &g, size_t r, size_t c, size_t k, int family) { return full(genVals(g, r, c, k, family)); }

    // the shared comparison: every element of t against the reference, with a per-element scale for rounding
    inline bool same(const std::string &key, const T &t, const Ref &want, const std::vector<double> &scale,
                     double rtol, double atol, const std::function<std::string()> &what) {
        if (t->rowCount() != want.r || t->columnCount() != want.c || t->channelCount() != want.k) {
            std::ostringstream o;
            o << what() << ": shape " << t->rowCount() << "x" << t->columnCount() << "x" << t->channelCount()
              << " instead of " << want.r << "x" << want.c << "x" << want.k;
            fail(key + ":shape", o.str());
            return false;
        }
        size_t i = 0;
        for (size_t ch = 0; ch < want.k; ch++)
            for (size_t row = 0; row < want.r; row++)
                for (size_t col = 0; col < want.c; col++, i++) {
                    double got = t->getValue(row, col, ch), w = want.v[i];
                    double tol = atol + rtol * std::max(std::fabs(w), scale.empty() ? 0.0 : scale[i]);
                    count("elements_compared");
                    bool ok = std::isfinite(w) ? std::fabs(got - w) <= tol
                                               : (std::isnan(w) ? std::isnan(got) : (float) got == (float) w);
                    if (!ok) {
                        std::ostringstream o;
                        o.precision(9);
                        o << what() << ": element (" << row << "," << col << "," << ch << ") is " << got
                          << ", the definition gives " << w << " (tolerance " << tol << ")";
                        fail(key + ":value", o.str());
                        return false;
                    }
                }
        count("oracle_checks");
        return true;
    }
}
#endif
