#include "sim.hpp"
#include "src/block/extra/add.hpp"
#include "src/block/extra/const.hpp"
#include "src/block/extra/delay.hpp"
#include "src/block/extra/derivative.hpp"
#include "src/block/extra/divide.hpp"
#include "src/block/extra/gain.hpp"
#include "src/block/extra/initial_value.hpp"
#include "src/block/extra/memory.hpp"
#include "src/block/extra/multiply.hpp"
#include "src/block/extra/pipe.hpp"
#include "src/block/extra/siso_function.hpp"
#include "src/block/extra/so_function.hpp"
#include "src/block/extra/source.hpp"
#include "src/block/extra/subtract.hpp"
#include "src/block/extra/triggered_integrator.hpp"
#include "src/block/integrator.hpp"

namespace drv
{

std::shared_ptr<Block> make_block_a(const BlkArgs& a)
{
    const std::string k = a.d["k"];
    auto& c = a.ctx;
    const int i = a.idx;
    const auto& p = a.p;
    Submodel* par = a.parent;
    const std::string& nm = a.name;
    const std::size_t n = c.sc["sigs"][a.d["o"][0].get<int>() - 1]["sz"].get<std::size_t>();
    const Array A = to_array(p);
    if (k == "const") return std::make_shared<Probe<ConstA>>(c, i, A, par, nm);
    if (k == "source")
    {
        json fn = a.d["fn"];
        return std::make_shared<Probe<SourceA>>(c, i, [fn, n](double t) -> Array { return to_array(fn_vec(fn, t, n)); }, par, nm);
    }
    if (k == "add")
    {
        return std::make_shared<Probe<AddA>>(c, i, A, par, nm);
    }
    if (k == "mul") return std::make_shared<Probe<MultiplyA>>(c, i, A, par, nm);
    if (k == "sub") return std::make_shared<Probe<SubtractA>>(c, i, par, nm);
    if (k == "div") return std::make_shared<Probe<DivideA>>(c, i, par, nm);
    if (k == "gain") return std::make_shared<Probe<GainA>>(c, i, p.at(0), par, nm);
    if (k == "pipe") return std::make_shared<Probe<PipeA>>(c, i, par, nm);
    if (k == "siso")
    {
        // the function type of these blocks returns a reference, so the result needs a home
        auto home = std::make_shared<Array>();
        return std::make_shared<Probe<SISOFunctionA>>(
            c, i,
            [home](double t, const Array& x) -> const Array&
            {
                *home = x * x + t;
                return *home;
            },
            par, nm);
    }
    if (k == "sat")
    {
        auto home = std::make_shared<Array>();
        return std::make_shared<Probe<SISOFunctionA>>(
            c, i,
            [home](double, const Array& x) -> const Array&
            {
                *home = x.max(-8.0).min(8.0);
                return *home;
            },
            par, nm);
    }
    if (k == "sofn")
    {
        double w  = p.at(0);
        auto home = std::make_shared<Array>();
        return std::make_shared<Probe<SOFunctionA>>(
            c, i,
            [w, home, n](double t, const Bus& ib) -> const Array&
            {
                *home = Array::Constant(n, w * t);
                for (const auto& [l, s] : ib) *home += ArraySignal(s)->get_value();
                return *home;
            },
            par, nm, uint16_t(a.d["i"].size()));
    }
    if (k == "mem") return std::make_shared<Probe<MemoryA>>(c, i, A, par, nm);
    if (k == "delay") return std::make_shared<Probe<DelayA>>(c, i, p.at(0), par, nm);
    if (k == "deriv") return std::make_shared<Probe<DerivativeA>>(c, i, A, par, nm);
    if (k == "integ") return std::make_shared<Probe<IntegratorA>>(c, i, A, par, nm);
    if (k == "trig") return std::make_shared<Probe<TriggeredIntegratorA>>(c, i, A, par, nm);
    if (k == "inival") return std::make_shared<Probe<InitialValueA>>(c, i, par, nm);
    return nullptr;
}

} // namespace drv
