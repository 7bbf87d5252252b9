#pragma once
#include "exec.h"
#include <cstring>

namespace sim
{
    static inline std::vector<std::string> words(const std::string& s)
    {
        std::vector<std::string> o;
        std::istringstream is(s);
        std::string t;
        while (is >> t) o.push_back(t);
        return o;
    }
    static inline std::string join(const Op& o)
    {
        std::string s;
        for (auto& w : o) { if (!s.empty()) s += " "; s += w; }
        return s;
    }
    static inline long ival(const Op& o, size_t i, long d = 0) { return i < o.size() ? strtol(o[i].c_str(), nullptr, 10) : d; }
    static inline double dval(const Op& o, size_t i, double d = 0) { return i < o.size() ? strtod(o[i].c_str(), nullptr) : d; }
    static inline const std::string& sval(const Op& o, size_t i) { static const std::string e; return i < o.size() ? o[i] : e; }

    static inline bool same_bits(double a, double b)
    {
        if (a != a && b != b) return true;
        return memcmp(&a, &b, 8) == 0;
    }
    static inline std::string stats_diff(const OptimizerStats& a, const OptimizerStats& b)
    {
        if (a.valid != b.valid) return "valid";
        if (a.status != b.status) return "status " + std::to_string(int(a.status)) + " vs " + std::to_string(int(b.status));
        if (!same_bits(a.chi2, b.chi2)) return "chi2 " + num(a.chi2) + " vs " + num(b.chi2);
        if (!same_bits(a.residual_norm, b.residual_norm)) return "residual_norm";
        if (!same_bits(a.delta_norm, b.delta_norm)) return "delta_norm";
        if (a.current_iteration != b.current_iteration) return "current_iteration";
        if (!same_bits(a.damping_parameter, b.damping_parameter)) return "damping_parameter";
        return "";
    }
} // namespace sim
