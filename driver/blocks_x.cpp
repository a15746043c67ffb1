#include "sim.hpp"
#include "src/block/extra/bus_memory.hpp"
#include "src/block/extra/bus_pipe.hpp"
#include "src/block/extra/const.hpp"
#include "src/block/extra/function.hpp"
#include "src/block/extra/gain.hpp"
#include "src/block/extra/memory.hpp"
#include "src/block/extra/pipe.hpp"
#include "src/block/extra/source.hpp"
#include "src/block/extra/sources.hpp"

namespace drv
{

// A user-defined block with two chained states: x' = v, v' = a, a = u - x - v.
class SecondOrder : public Leaf
{
public:
    SecondOrder(double x0, double v0, Submodel* parent, const std::string& name) : Leaf(parent, name, 1, 3), _x0(x0), _v0(v0) {}

    bool connect(const Bus& ibus, const Bus& obus) override
    {
        if (!Leaf::connect(ibus, obus)) return false;
        _u.reset(input(0));
        _x.reset(io_at<std::size_t>(obus, 0, SignalLinkType::Output | SignalLinkType::Required));
        _v.reset(io_at<std::size_t>(obus, 1, SignalLinkType::Output | SignalLinkType::Required));
        _a.reset(output(2));
        _x->set_deriv_signal(_v);
        _v->set_deriv_signal(_a);
        return true;
    }
    void pre_step(double) override
    {
        _x = _x0;
        _v = _v0;
    }
    void post_step(double) override
    {
        _x0 = _x;
        _v0 = _v;
    }
    void activation_function(double) override { _a = _u - _x - _v; }

protected:
    double _x0, _v0;
    ScalarSignal _u, _x, _v, _a;
};

using PairSB = std::pair<const std::string, BusMemory::Value>;

template<std::size_t N = 0, std::size_t M = 0>
static std::shared_ptr<Block> mk_busmem(Ctx& c, int i, Submodel& par, const std::vector<PairSB>& iv, const std::vector<std::string>& ex)
{
    if constexpr (N > 6 || M > 4)
        throw std::logic_error("driver: busmem arguments");
    else if (iv.size() > N)
        return mk_busmem<N + 1, M>(c, i, par, iv, ex);
    else if (ex.size() > M)
        return mk_busmem<N, M + 1>(c, i, par, iv, ex);
    else
    {
        return [&]<std::size_t... I, std::size_t... J>(std::index_sequence<I...>, std::index_sequence<J...>)
        { return std::make_shared<Probe<BusMemory>>(c, i, par, std::initializer_list<PairSB>{iv[I]...}, std::initializer_list<std::string>{ex[J]...}); }
        (std::make_index_sequence<N>{}, std::make_index_sequence<M>{});
    }
}

template<std::size_t M = 0>
static std::shared_ptr<Block> mk_buspipe(Ctx& c, int i, Submodel& par, const std::vector<std::string>& ex)
{
    if constexpr (M > 4)
        throw std::logic_error("driver: buspipe arguments");
    else if (ex.size() > M)
        return mk_buspipe<M + 1>(c, i, par, ex);
    else
        return [&]<std::size_t... J>(std::index_sequence<J...>)
        { return std::make_shared<Probe<BusPipe>>(c, i, par, std::initializer_list<std::string>{ex[J]...}); }
        (std::make_index_sequence<M>{});
}

static std::string dotted(const json& path)
{
    std::string r;
    for (auto& l : path) r += (r.empty() ? "" : ".") + l.get<std::string>();
    return r;
}

std::shared_ptr<Block> make_block_x(const BlkArgs& a)
{
    const std::string k = a.d["k"];
    auto& c = a.ctx;
    const int i = a.idx;
    const auto& p = a.p;
    Submodel* par = a.parent;
    const std::string& nm = a.name;
    const char ty = a.d.value("ty", std::string("s"))[0];

    if (ty == 'i')
    {
        if (k == "const") return std::make_shared<Probe<ConstT<int>>>(c, i, int(p.at(0)), par, nm);
        if (k == "source")
        {
            json fn = a.d["fn"];
            return std::make_shared<Probe<SourceI>>(c, i, [fn](double t) -> int { return int(std::floor(fn_eval(fn, t))); }, par, nm);
        }
        if (k == "gain") return std::make_shared<Probe<GainI>>(c, i, int(p.at(0)), par, nm);
        if (k == "pipe") return std::make_shared<Probe<PipeI>>(c, i, par, nm);
        if (k == "mem") return std::make_shared<Probe<MemoryI>>(c, i, int(p.at(0)), par, nm);
    }
    if (ty == 'b')
    {
        if (k == "const") return std::make_shared<Probe<ConstT<bool>>>(c, i, p.at(0) > 0, par, nm);
        if (k == "source")
        {
            json fn = a.d["fn"];
            return std::make_shared<Probe<SourceT<bool>>>(c, i, [fn](double t) -> bool { return fn_eval(fn, t) > 0; }, par, nm);
        }
        if (k == "pipe") return std::make_shared<Probe<PipeB>>(c, i, par, nm);
        if (k == "mem") return std::make_shared<Probe<MemoryB>>(c, i, p.at(0) > 0, par, nm);
    }
    if (k == "sources")
    {
        json fns = a.d["fns"];
        return std::make_shared<Probe<Sources>>(
            c, i,
            [fns](const Bus& ob, double t)
            {
                for (std::size_t j = 0; j < ob.size(); j++)
                {
                    auto& impl = ob.at(j).impl();
                    std::size_t n = 1;
                    if (auto* pa = dynamic_cast<ArraySignalImpl*>(&impl)) n = pa->size();
                    sig_set(impl, fn_vec(fns[j], t, n));
                }
            },
            par, nm, uint16_t(a.d["o"].size()));
    }
    if (k == "func")
        return std::make_shared<Probe<Function>>(
            c, i,
            [](double t, const Bus& ib, const Bus& ob)
            {
                double s = 0;
                for (const auto& [l, sg] : ib) s += ScalarSignal(sg)->get_value();
                for (std::size_t j = 0; j < ob.size(); j++)
                {
                    ScalarSignal o(ob.at(j));
                    o = double(j + 1) * s + t;
                }
            },
            par, nm, uint16_t(a.d["i"].size()), uint16_t(a.d["o"].size()));
    if (k == "cmp")
        return std::make_shared<Probe<Function>>(
            c, i,
            [](double, const Bus& ib, const Bus& ob)
            { BoolSignal(ob.at(0))->set_value(ScalarSignal(ib.at(0))->get_value() > ScalarSignal(ib.at(1))->get_value()); }, par, nm, 2, 1);
    if (k == "so2") return std::make_shared<Probe<SecondOrder>>(c, i, p.at(0), p.at(1), par, nm);
    if (k == "busmem" || k == "buspipe")
    {
        std::vector<std::string> ex;
        for (auto& e : a.d["ex"]) ex.push_back(e["t"] == "b" ? dotted(e["p"]) + "." : dotted(e["p"]));
        if (k == "buspipe") return mk_buspipe(c, i, *par, ex);
        std::vector<PairSB> iv;
        for (auto& e : a.d["iv"])
        {
            auto v = dbls(e["v"]);
            BusMemory::Value val;
            switch (e["ty"].get<std::string>()[0])
            {
            case 's': val = v.at(0); break;
            case 'i': val = int(v.at(0)); break;
            case 'b': val = v.at(0) > 0; break;
            case 'a': val = to_array(v); break;
            }
            iv.emplace_back(dotted(e["p"]), val);
        }
        return mk_busmem(c, i, *par, iv, ex);
    }
    return nullptr;
}

} // namespace drv
