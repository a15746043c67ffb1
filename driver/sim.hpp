#pragma once
#include "common.hpp"

namespace drv
{

// What a running scenario consists of, and the recording of its events.
struct Ctx
{
    json sc;
    std::vector<Signal> sigs;                       // value signals, 1-based id - 1
    std::vector<Bus> buses;                         // buses, 1-based id - 1
    std::vector<std::shared_ptr<Submodel>> subs;    // nested submodels
    std::vector<std::shared_ptr<Block>> blks;       // leaf blocks
    std::shared_ptr<Submodel> rootsub;
    Block* root{nullptr};
    Block* rootleaf{nullptr};
    bool log{true};
    bool lean{false};                               // record results and steps only
    int evals{0};                                   // input callbacks so far
    int calls{0};                                   // initializations and runs so far
    int throw_in{0};                                // user functions throw when this is set (fault injection)

    json values(const json& ids) const
    {
        json r = json::array();
        for (auto& i : ids) r.push_back(sig_value(sigs.at(i.get<int>() - 1).impl()));
        return r;
    }
    json assigned() const
    {
        json r = json::array();
        for (std::size_t k = 0; k < sigs.size(); k++)
            if (sig_assigned(sigs[k].impl())) r.push_back(json::array({k + 1, sig_value(sigs[k].impl())}));
        return r;
    }
    json snapshot() const
    {
        json r = json::array();
        for (auto& s : sigs) r.push_back(sig_value(s.impl()));
        return r;
    }
    void apply_inputs(double t, const char* via);
};

// A library block whose public hooks record what happens.
template<class B>
struct Probe : public B
{
    Ctx& ctx;
    int idx; // 1-based
    const json in_ids, out_ids;

    template<class... A>
    Probe(Ctx& c, int i, A&&... a)
        : B(std::forward<A>(a)...), ctx(c), idx(i), in_ids(c.sc["blks"][i - 1]["i"]), out_ids(c.sc["blks"][i - 1]["o"])
    {
    }
    void input_cb(double t) override
    {
        if (ctx.root == this) ctx.apply_inputs(t, "root");
        B::input_cb(t);
    }
    void activation_function(double t) override
    {
        if (!ctx.log) return B::activation_function(t);
        json in = ctx.values(in_ids);
        B::activation_function(t);
        out({{"e", "act"}, {"b", idx}, {"t", num(t)}, {"in", in}, {"out", ctx.values(out_ids)}});
    }
    void pre_step(double t) override
    {
        B::pre_step(t);
        if (ctx.log) out({{"e", "pre"}, {"b", idx}, {"t", num(t)}, {"out", ctx.values(out_ids)}});
    }
    void post_step(double t) override
    {
        if (!ctx.log) return B::post_step(t);
        json in = ctx.values(in_ids);
        B::post_step(t);
        out({{"e", "post"}, {"b", idx}, {"t", num(t)}, {"in", in}, {"out", ctx.values(out_ids)}});
    }
};

struct BlkArgs
{
    Ctx& ctx;
    int idx;
    const json& d;
    Submodel* parent;
    std::string name;
    std::vector<double> p;
};

// nullptr if the kind is not theirs
std::shared_ptr<Block> make_block_s(const BlkArgs&);  // scalar
std::shared_ptr<Block> make_block_a(const BlkArgs&);  // array
std::shared_ptr<Block> make_block_x(const BlkArgs&);  // int, bool, multi-signal, bus and user-defined blocks

} // namespace drv
