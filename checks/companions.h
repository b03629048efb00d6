// Several objects of one kind, asked in turns at the same arguments: every answer is the one the object gives on its own.
#ifndef COMPANIONS_H
#define COMPANIONS_H
#include <functional>
#include <map>
#include <string>
#include "omc.h"
namespace companions {
    typedef std::function<std::vector<double>()> Query;
    typedef std::vector<std::pair<std::string, Query>> Queries;
    inline bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b || std::abs(a - b) <= 1e-9 * std::max(std::abs(a), std::abs(b)); }
    inline bool same(const std::vector<double> &a, const std::vector<double> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; }
    typedef std::vector<std::vector<std::vector<double>>> Table;
    // make(k) builds object k of n, and the queries it can be asked (which keep it alive); `alike`: queries which two objects may answer alike
    inline void turns(int n, std::function<Queries(int)> make, int depth, std::function<bool(int, int, const std::string &)> alike = nullptr, Table *table = nullptr) {
        static Table one; Table &want = table ? *table : one;
        if (want.empty()) {
            for (int k = 0; k < n; k++) {
                want.push_back({});
                size_t Q = make(k).size();
                for (size_t q = 0; q < Q; q++) want[k].push_back(make(k)[q].second());     // each query of an object that is asked nothing else
            }
            // not vacuous: objects which are different answer differently
            for (int k = 0; k < n; k++) for (int j = 0; j < k; j++) { auto m = make(k); for (size_t q = 0; q < m.size(); q++) if (same(want[k][q], want[j][q]) && !(alike && alike(j, k, m[q].first))) { double v = want[k][q].empty() ? NAN : want[k][q][0]; want.clear(); omc::fail("objects %d and %d answer \"%s\" alike: %g", j, k, m[q].first.c_str(), v); } }
        }
        std::vector<Queries> o(n);
        std::string last;
        for (int d = 0; d < depth; d++) {
            int k = omc::choose(n, "object");
            if (o[k].empty()) o[k] = make(k);
            int q = omc::choose((int)o[k].size(), "query");
            auto v = o[k][q].second();
            if (!same(v, want[k][q])) for (size_t i = 0; i < std::max(v.size(), want[k][q].size()); i++) {
                double a = i < v.size() ? v[i] : NAN, b = i < want[k][q].size() ? want[k][q][i] : NAN;
                if (!same(a, b)) omc::fail("object %d, %s: %.12g, asked on its own %.12g (asked before: %s)", k, o[k][q].first.c_str(), a, b, last.c_str());
            }
            last += "object " + std::to_string(k) + " " + o[k][q].first + "; ";
        }
        omc::outcome("ok");
    }
}
#endif
