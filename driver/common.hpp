// Common parts of the conformance driver: JSON in, ndjson out, signal value access through the public API.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <variant>
#include <vector>

#include <nlohmann/json.hpp>

#include "src/helper/trace.hpp"
#include "src/helper/util.hpp"
#include "src/helper/verify.hpp"

#include "src/block/block.hpp"
#include "src/block/leaf.hpp"
#include "src/block/submodel.hpp"
#include "src/signal/array_signal.hpp"
#include "src/signal/bool_signal.hpp"
#include "src/signal/bus.hpp"
#include "src/signal/int_signal.hpp"
#include "src/signal/scalar_signal.hpp"

using json = nlohmann::json;

namespace drv
{
using namespace pooya;

inline std::string num(double v)
{
    if (std::isnan(v)) return "NaN";
    if (std::isinf(v)) return v > 0 ? "Infinity" : "-Infinity";
    char buf[64];
    std::snprintf(buf, sizeof(buf), "%.17g", v);
    return buf;
}

inline double dbl(const json& j)
{
    if (j.is_string()) return std::strtod(j.get<std::string>().c_str(), nullptr);
    return j.get<double>();
}

inline std::vector<double> dbls(const json& j)
{
    std::vector<double> r;
    for (auto& x : j) r.push_back(dbl(x));
    return r;
}

inline Array to_array(const std::vector<double>& v)
{
    Array a(v.size());
    for (std::size_t k = 0; k < v.size(); k++) a[k] = v[k];
    return a;
}

inline json jarr(const Array& a)
{
    json r = json::array();
    for (Eigen::Index k = 0; k < a.size(); k++) r.push_back(num(a[k]));
    return r;
}

inline std::size_t trace_depth()
{
#if defined(POOYA_DEBUG)
    return pooya::helper::pooya_trace_info.size();
#else
    return 0;
#endif
}

// value of a signal as a list of number strings; empty if unassigned
json sig_value(const SignalImpl& impl);
bool sig_assigned(const SignalImpl& impl);
void sig_set(SignalImpl& impl, const std::vector<double>& v);
// char type of a signal: s i b a B(us) ?
char sig_type(const SignalImpl& impl);
Signal make_signal(char type, std::size_t size, const std::string& name);

double fn_eval(const json& fn, double t, std::size_t j = 0);
std::vector<double> fn_vec(const json& fn, double t, std::size_t n);

Bus make_bus(const std::vector<Signal>& v, const std::string& name = "");
Bus make_bus(const std::vector<std::pair<std::string, Signal>>& v, const std::string& name = "");

class Out
{
public:
    std::ostream* os{nullptr};
    void operator()(const json& j)
    {
        if (os)
        {
            *os << j.dump() << "\n";
        }
        if (yield) yield();
    }
    int part{0}; // of the scenario
    std::function<void()> yield; // when simulations are interleaved: lets another one go on
    void flush()
    {
        if (os) os->flush();
    }
};
extern thread_local Out out;

// category of an exception text, so that expectations do not depend on wording
std::string first_lines(const std::string& what);

std::string bytes(const json& j);
json jbytes(const std::string& s);

void facet_sim(const json& sc);
void facet_sig(const json& sc);
void facet_bus(const json& sc);
void facet_hist(const json& sc);
void facet_tree(const json& sc);
void facet_name(const json& sc);
void facet_conn(const json& sc);
void facet_step(const json& sc);
void facet_diag(const json& sc);
void facet_multi(const json& sc);
bool facet_any(const json& sc);

} // namespace drv
