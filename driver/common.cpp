#include "common.hpp"

namespace drv
{

thread_local Out out;

json sig_value(const SignalImpl& impl)
{
    json r = json::array();
    if (!sig_assigned(impl)) return r;
    if (auto* p = dynamic_cast<const ScalarSignalImpl*>(&impl))
        r.push_back(num(p->get_value()));
    else if (auto* p = dynamic_cast<const IntSignalImpl*>(&impl))
        r.push_back(std::to_string(p->get_value()));
    else if (auto* p = dynamic_cast<const BoolSignalImpl*>(&impl))
        r.push_back(p->get_value() ? "1" : "0");
    else if (auto* p = dynamic_cast<const ArraySignalImpl*>(&impl))
        return jarr(p->get_value());
    return r;
}

bool sig_assigned(const SignalImpl& impl)
{
    auto* p = dynamic_cast<const ValueSignalImpl*>(&impl);
    return p && p->assigned();
}

void sig_set(SignalImpl& impl, const std::vector<double>& v)
{
    if (auto* p = dynamic_cast<ScalarSignalImpl*>(&impl))
        p->set_value(v.at(0));
    else if (auto* p = dynamic_cast<IntSignalImpl*>(&impl))
        p->set_value(static_cast<int>(std::floor(v.at(0))));
    else if (auto* p = dynamic_cast<BoolSignalImpl*>(&impl))
        p->set_value(v.at(0) > 0);
    else if (auto* p = dynamic_cast<ArraySignalImpl*>(&impl))
        p->set_value(to_array(v));
}

char sig_type(const SignalImpl& impl)
{
    if (dynamic_cast<const ScalarSignalImpl*>(&impl)) return 's';
    if (dynamic_cast<const IntSignalImpl*>(&impl)) return 'i';
    if (dynamic_cast<const BoolSignalImpl*>(&impl)) return 'b';
    if (dynamic_cast<const ArraySignalImpl*>(&impl)) return 'a';
    if (dynamic_cast<const BusImpl*>(&impl)) return 'B';
    return '?';
}

Signal make_signal(char type, std::size_t size, const std::string& name)
{
    switch (type)
    {
    case 's':
        return ScalarSignal(name);
    case 'i':
        return IntSignal(name);
    case 'b':
        return BoolSignal(name);
    case 'a':
        return ArraySignal(size, name);
    }
    throw std::logic_error("driver: signal type");
}

double fn_eval(const json& fn, double t, std::size_t j)
{
    const std::string k = fn.at(0);
    double v            = 0;
    if (k == "c")
        v = dbl(fn.at(1));
    else if (k == "lin")
        v = dbl(fn.at(1)) + dbl(fn.at(2)) * t;
    else if (k == "sq")
        v = dbl(fn.at(1)) + dbl(fn.at(2)) * t * t;
    else if (k == "stp")
        v = t < dbl(fn.at(1)) ? dbl(fn.at(2)) : dbl(fn.at(3));
    else if (k == "pul")
        v = (t >= dbl(fn.at(1)) && t < dbl(fn.at(2))) ? 1 : 0;
    else
        throw std::logic_error("driver: fn");
    return v + double(j);
}

std::vector<double> fn_vec(const json& fn, double t, std::size_t n)
{
    std::vector<double> r;
    // drift: elements of very different magnitudes that change at the same pace
    const bool drift = fn.at(0) == "drf";
    for (std::size_t j = 0; j < n; j++)
        r.push_back(drift ? dbl(fn.at(1)) * std::pow(10.0, -dbl(fn.at(3)) * double(j)) + dbl(fn.at(2)) * t : fn_eval(fn, t, j));
    return r;
}

constexpr std::size_t MAXBUS = 24;

template<typename T, std::size_t... I>
static Bus mk(const std::vector<T>& v, const std::string& name, std::index_sequence<I...>)
{
    if constexpr (sizeof...(I) == 0)
        return Bus(std::initializer_list<Signal>{}, name);
    else
        return Bus({v[I]...}, name);
}

template<typename T, std::size_t N = 0>
static Bus dispatch(const std::vector<T>& v, const std::string& name)
{
    if constexpr (N <= MAXBUS)
    {
        if (v.size() == N) return mk<T>(v, name, std::make_index_sequence<N>{});
        return dispatch<T, N + 1>(v, name);
    }
    else
        throw std::logic_error("driver: bus too large");
}

Bus make_bus(const std::vector<Signal>& v, const std::string& name)
{
    return dispatch<Signal>(v, name);
}

Bus make_bus(const std::vector<std::pair<std::string, Signal>>& v, const std::string& name)
{
    return dispatch<std::pair<std::string, Signal>>(v, name);
}

std::string first_lines(const std::string& what)
{
    return what.substr(0, 200);
}

} // namespace drv
