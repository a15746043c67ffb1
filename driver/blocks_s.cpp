#include "sim.hpp"
#include "src/block/extra/add.hpp"
#include "src/block/extra/const.hpp"
#include "src/block/extra/delay.hpp"
#include "src/block/extra/derivative.hpp"
#include "src/block/extra/divide.hpp"
#include "src/block/extra/gain.hpp"
#include "src/block/extra/initial_value.hpp"
#include "src/block/extra/memory.hpp"
#include "src/block/extra/multiply.hpp"
#include "src/block/extra/pipe.hpp"
#include "src/block/extra/siso_function.hpp"
#include "src/block/extra/so_function.hpp"
#include "src/block/extra/source.hpp"
#include "src/block/extra/subtract.hpp"
#include "src/block/extra/triggered_integrator.hpp"
#include "src/block/integrator.hpp"

namespace drv
{

std::shared_ptr<Block> make_block_s(const BlkArgs& a)
{
    const std::string k = a.d["k"];
    auto& c = a.ctx;
    const int i = a.idx;
    const auto& p = a.p;
    Submodel* par = a.parent;
    const std::string& nm = a.name;
    if (k == "const") return std::make_shared<Probe<Const>>(c, i, p.at(0), par, nm);
    if (k == "source")
    {
        json fn = a.d["fn"];
        return std::make_shared<Probe<Source>>(c, i, [fn](double t) -> double { return fn_eval(fn, t); }, par, nm);
    }
    if (k == "add")
    {
        if (p.empty() || a.d.value("dflt", 0)) return std::make_shared<Probe<Add>>(c, i, 0.0, par, nm);
        return std::make_shared<Probe<Add>>(c, i, p.at(0), par, nm);
    }
    if (k == "mul") return std::make_shared<Probe<Multiply>>(c, i, p.at(0), par, nm);
    if (k == "sub") return std::make_shared<Probe<Subtract>>(c, i, par, nm);
    if (k == "div") return std::make_shared<Probe<Divide>>(c, i, par, nm);
    if (k == "gain") return std::make_shared<Probe<Gain>>(c, i, p.at(0), par, nm);
    if (k == "pipe") return std::make_shared<Probe<Pipe>>(c, i, par, nm);
    if (k == "siso")
    {
        Ctx* pc = &c;
        return std::make_shared<Probe<SISOFunction>>(
            c, i,
            [pc, i](double t, double x) -> double
            {
                if (pc->throw_in == i) throw std::runtime_error("user function failed");
                return x * x + t;
            },
            par, nm);
    }
    if (k == "sat")
        return std::make_shared<Probe<SISOFunction>>(
            c, i, [](double, double x) -> double { return std::min(std::max(x, -8.0), 8.0); }, par, nm);
    if (k == "sofn")
    {
        double w = p.at(0);
        return std::make_shared<Probe<SOFunction>>(
            c, i,
            [w](double t, const Bus& ib) -> double
            {
                double r = w * t;
                for (const auto& [l, s] : ib) r += ScalarSignal(s)->get_value();
                return r;
            },
            par, nm, uint16_t(a.d["i"].size()));
    }
    if (k == "mem") return std::make_shared<Probe<Memory>>(c, i, p.at(0), par, nm);
    if (k == "delay") return std::make_shared<Probe<Delay>>(c, i, p.at(0), par, nm);
    if (k == "deriv") return std::make_shared<Probe<Derivative>>(c, i, p.at(0), par, nm);
    if (k == "integ") return std::make_shared<Probe<Integrator>>(c, i, p.at(0), par, nm);
    if (k == "trig") return std::make_shared<Probe<TriggeredIntegrator>>(c, i, p.at(0), par, nm);
    if (k == "inival") return std::make_shared<Probe<InitialValue>>(c, i, par, nm);
    return nullptr;
}

} // namespace drv
