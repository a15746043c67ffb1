// Facets: steppers on arbitrary right-hand sides, and diagnostics under failures.
#include "common.hpp"
#include "src/block/extra/add.hpp"
#include "src/block/extra/bus_memory.hpp"
#include "src/block/extra/delay.hpp"
#include "src/block/extra/derivative.hpp"
#include "src/block/extra/function.hpp"
#include "src/block/extra/gain.hpp"
#include "src/block/extra/memory.hpp"
#include "src/block/extra/source.hpp"
#include "src/block/integrator.hpp"
#include "src/solver/euler.hpp"
#include "src/solver/fast_simulator.hpp"
#include "src/solver/history.hpp"
#include "src/solver/rk4.hpp"
#include "src/solver/rkf45.hpp"
#include "src/solver/simulator.hpp"

namespace drv
{

void facet_step(const json& sc)
{
    std::map<int, std::shared_ptr<StepperBase>> steppers;
    for (auto& op : sc["ops"])
    {
        const std::string o = op["op"];
        if (o == "new")
        {
            const std::string k = op["k"];
            auto& s             = steppers[op["id"].get<int>()];
            if (k == "euler") s = std::make_shared<Euler>();
            else if (k == "rk4") s = std::make_shared<Rk4>();
            else s = std::make_shared<Rkf45>();
            continue;
        }
        const double t0   = dbl(op["t0"]), t1 = dbl(op["t1"]);
        const Array v0    = to_array(dbls(op["v0"]));
        Array v0c         = v0;
        const json& rhs   = op["rhs"];
        const std::string rk = rhs["k"];
        const bool fresh  = op.value("buf", std::string("own")) == "fresh"; // every call returns another array
        const int thr     = op.value("thr", 0);
        std::vector<std::unique_ptr<Array>> bufs;
        Array buf(v0.size());
        int n      = 0;
        json calls = json::array();
        auto cb    = [&](double t, const Array& v) -> const Array&
        {
            n++;
            Array d(v.size());
            for (Eigen::Index e = 0; e < v.size(); e++)
            {
                const Eigen::Index f = (e + 1) % v.size();
                if (rk == "lin") d[e] = dbl(rhs["a"]) * v[e] + dbl(rhs["b"]) * t + dbl(rhs["c"]) * double(e);
                else if (rk == "mix") d[e] = dbl(rhs["a"]) * v[f] - dbl(rhs["b"]) * v[e] * v[e] + t;
                else if (rk == "sq") d[e] = dbl(rhs["a"]) * t * t + dbl(rhs["b"]) * t * double(e + 1) + dbl(rhs["c"]);
                else if (rk == "exp") d[e] = std::exp(-t) * dbl(rhs["a"]) + std::sin(v[f]);
                else d[e] = dbl(rhs["d"].at((n - 1) % rhs["d"].size()).at(e % rhs["d"][0].size())); // table
            }
            calls.push_back(json{{"t", num(t)}, {"v", jarr(v)}, {"d", jarr(d)}});
            if (thr == n) throw std::runtime_error("right-hand side failed");
            if (fresh)
            {
                bufs.push_back(std::make_unique<Array>(d));
                return *bufs.back();
            }
            buf = d;
            return buf;
        };
        const std::string pre = op.value("pre", std::string("size"));
        Array v1;
        if (pre == "size") { v1.resize(v0.size()); v1.setConstant(123.5); }
        else if (pre == "other") { v1.resize(v0.size() + 2); v1.setConstant(-9.25); }
        double nh = -77;
        int ok    = 1;
        try
        {
            steppers.at(op["id"].get<int>())->step(cb, t0, v0c, t1, v1, nh);
        }
        catch (const std::exception&)
        {
            ok = 0;
        }
        out({{"e", "op"}, {"op", op}, {"ok", ok}, {"calls", calls}, {"v0", jarr(v0c)}, {"v1", ok ? jarr(v1) : json::array()}, {"nh", num(nh)}, {"tr", trace_depth()}});
    }
}

namespace
{

const std::string MSG = "Something odd (\"quoted\", 100%) happened: x_1 = -2.5e-3";

// What is to fail, where and when.
struct Fault
{
    int b{0};          // block
    std::string where; // act pre post input cb step
    std::string kind;
    int nth{0};
    int seen{0};
    bool fired{false};
    std::string msg{MSG};
};

struct Rig
{
    Fault fault;
    std::vector<Signal> sigs;
    std::vector<std::shared_ptr<Submodel>> subs;
    std::vector<std::shared_ptr<Block>> blks;
    ScalarSignal dangling{"dangling"};

    // nullptr: does not concern this call
    void fail(const char* where, int b, const Bus* ib = nullptr, const Signal* outsig = nullptr)
    {
        if (fault.where != where || fault.b != b || fault.fired) return;
        if (++fault.seen != fault.nth) return;
        fault.fired = true;
        const std::string& k = fault.kind;
        if (k == "user") throw std::runtime_error(fault.msg);
        if (k == "int") throw 42;
        if (k == "verify") pooya_verify(false, fault.msg);
        if (k == "read") { volatile double x = double(dangling); (void) x; }
        if (k == "twice") { ScalarSignal s("s"); s = 1.0; s = 2.0; }
        if (k == "lookup") { Bus x({Signal(dangling)}, "bus"); x.at("nothing like it"); }
        if (k == "index") { Bus x({Signal(dangling)}, "bus"); x.at(std::size_t(7)); }
        if (k == "type") { BoolSignal x("b"); ScalarSignal y{static_cast<const Signal&>(x)}; }
        if (k == "size") { ArraySignal x(3, "a"); x = Array(Array::Zero(2)); }
        if (k == "connect") { Gain g(1.0, nullptr, "g"); g.connect({}, {}); }
        std::cerr << "driver: fault did not fail";
        std::exit(2);
    }
};

struct UserLeaf : public Leaf
{
    Rig& rig;
    int idx;
    UserLeaf(Rig& r, int i, Submodel* p, const std::string& n) : Leaf(p, n, 1, 1), rig(r), idx(i) {}
    bool connect(const Bus& ib, const Bus& ob) override
    {
        if (!Leaf::connect(ib, ob)) return false;
        _x.reset(ib.at(std::size_t(0)));
        _y.reset(ob.at(std::size_t(0)));
        return true;
    }
    void pre_step(double) override { rig.fail("pre", idx); }
    void post_step(double) override { rig.fail("post", idx); }
    void activation_function(double t) override
    {
        rig.fail("act", idx);
        _y = _x + t;
    }
    ScalarSignal _x, _y;
};

struct RootSub : public Submodel
{
    Rig& rig;
    RootSub(Rig& r, const std::string& n) : Submodel(nullptr, n), rig(r) {}
    void input_cb(double) override { rig.fail("input", 0); }
};

struct FailingStepper : public StepperBase
{
    Rig& rig;
    Euler inner;
    explicit FailingStepper(Rig& r) : rig(r) {}
    void step(StepperCallback cb, double t0, const Array& v0, double t1, Array& v1, double& h) override
    {
        rig.fail("step", 0);
        inner.step(cb, t0, v0, t1, v1, h);
        rig.fail("step2", 0);
    }
};

json report(const Rig& rig, const std::string& what)
{
    json path = json::array();
    int frames = 0, nofile = 0, outer = 0;
    bool in = false;
    std::istringstream is(what);
    std::string line;
    while (std::getline(is, line))
    {
        if (!in) { if (line.find("Traceback") != std::string::npos) in = true; continue; }
        if (line.rfind("- ", 0) == 0)
        {
            frames++;
            outer = line.find("/solver/") != std::string::npos ? 1 : 0;
            if (line.find(".cpp:") == std::string::npos && line.find(".hpp:") == std::string::npos) nofile++;
            continue;
        }
        // a frame's message: does it name a block?
        auto p = line.find_last_of(' ');
        const std::string tok = p == std::string::npos ? line : line.substr(p + 1);
        int id = 0;
        for (std::size_t k = 0; k < rig.blks.size(); k++)
            if (rig.blks[k]->full_name().str() == tok) id = int(k) + 1;
        for (std::size_t k = 0; k < rig.subs.size(); k++)
            if (rig.subs[k]->full_name().str() == tok) id = -(int(k) + 1);
        if (id && (path.empty() || path.back() != id)) path.push_back(id);
    }
    return json{{"lib", what.find("Pooya Exception") != std::string::npos ? 1 : 0},
                {"same", what == rig.fault.msg ? 1 : 0},
                {"has", what.find(rig.fault.msg) != std::string::npos ? 1 : 0},
                {"path", path},
                {"frames", frames},
                {"nofile", nofile},
                {"outer", outer}};
}

// single operations that have to fail (or not), outside of any simulation
bool single_op(const std::string& k)
{
    ScalarSignal a("a"), b("b"), c("c");
    BoolSignal t("t");
    ArraySignal v(3, "v");
    auto par = [] { return std::make_shared<Submodel>(nullptr, "sub"); };
    if (k == "conn_ok") { auto p = par(); Gain g(1.0, p.get(), "g"); g.connect({a}, {b}); return true; }
    if (k == "conn_none") { auto p = par(); Gain g(1.0, p.get(), "g"); g.connect({}, {b}); return true; }
    if (k == "conn_in2") { auto p = par(); Gain g(1.0, p.get(), "g"); g.connect({a, c}, {b}); return true; }
    if (k == "conn_out0") { auto p = par(); Gain g(1.0, p.get(), "g"); g.connect({a}, {}); return true; }
    if (k == "conn_again") { auto p = par(); Gain g(1.0, p.get(), "g"); g.connect({a}, {b}); g.connect({a}, {c}); return true; }
    if (k == "conn_type") { auto p = par(); Gain g(1.0, p.get(), "g"); g.connect({t}, {b}); return true; }
    if (k == "add_ok") { auto p = par(); Gain g(1.0); return p->add_block(g, {a}, {b}); }
    if (k == "add_bad") { auto p = par(); Gain g(1.0); return p->add_block(g, {a, b}, {b}); }
    if (k == "bus_ok") { Bus x({{"p", a}, {"q", b}}, "bus"); return &x.at("q").impl() == &b.impl(); }
    if (k == "bus_label") { Bus x({{"p", a}, {"q", b}}, "bus"); x.at("r"); return true; }
    if (k == "bus_sub") { Bus x({{"p", a}, {"q", b}}, "bus"); x.at("p.z"); return true; }
    if (k == "bus_index") { Bus x({{"p", a}, {"q", b}}, "bus"); x.at(2); return true; }
    if (k == "bus_op") { Bus x({{"p", a}, {"q", b}}, "bus"); x["nope"]; return true; }
    if (k == "bus_try") { Bus x({{"p", a}, {"q", b}}, "bus"); return !x->try_at("nope") && !x->try_at("p.z"); }
    if (k == "make_ok") { ScalarSignal y{static_cast<const Signal&>(a)}; return true; }
    if (k == "make_bad") { ScalarSignal y{static_cast<const Signal&>(t)}; return true; }
    if (k == "reset_bad") { ScalarSignal y("y"); y.reset(static_cast<const Signal&>(v)); return true; }
    if (k == "read_ok") { a = 1.5; return double(a) == 1.5; }
    if (k == "read_bad") { return double(a) == 1.5; }
    if (k == "read_arr") { return static_cast<const Array&>(v).size() == 3; }
    if (k == "read_bool") { return bool(t); }
    if (k == "set_twice") { a = 1.5; a = 2.5; return true; }
    if (k == "set_size") { v = Array(Array::Zero(4)); return true; }
    if (k == "set_ok") { v = Array(Array::Zero(3)); t = true; return true; }
    if (k == "hist_late") { History h(3); h.track(a); h.update(0, 0.0); h.track(b); return true; }
    if (k == "hist_untrack_late") { History h(3); h.track(a); h.update(0, 0.0); h.untrack(a); return true; }
    if (k == "hist_ok") { History h(1); h.track(a); h.update(0, 0.0); h.update(1, 0.5); h.update(2, 1.0); h.shrink_to_fit(); return h.nrows() == 3; }
    if (k == "hist_get") { History h(3); h.track(a); return h[b].rows() > 0; }
    if (k == "busmem_bad")
    {
        auto p = par();
        Bus x({{"p", a}}, "x"), y({{"p", b}}, "y");
        BusMemory m(*p, {{std::string("zz"), BusMemory::Value(1.0)}});
        m.connect(x, y);
        return true;
    }
    if (k == "busmem_ok")
    {
        auto p = par();
        Bus x({{"p", a}}, "x"), y({{"p", b}}, "y");
        BusMemory m(*p, {{std::string("p"), BusMemory::Value(1.0)}});
        m.connect(x, y);
        return true;
    }
    if (k == "back" || k == "forth")
    {
        Submodel m(nullptr, "m");
        Integrator i(1.0, &m, "i");
        i.connect({a}, {b});
        Gain g(-1.0, &m, "g");
        g.connect({b}, {a});
        Rk4 st;
        Simulator s(m, nullptr, &st);
        s.init(1.0);
        s.run(2.0);
        s.run(k == "back" ? 1.5 : 2.5);
        return true;
    }
    if (k == "loop_fast" || k == "loop")
    {
        Submodel m(nullptr, "m");
        Gain g(-1.0, &m, "g"), h(2.0, &m, "h");
        g.connect({a}, {b});
        h.connect({b}, {a});
        if (k == "loop") { Simulator s(m); s.init(0.0); }
        else { FastSimulator s(m); s.init(0.0); }
        return true;
    }
    if (k == "nostepper" || k == "steps")
    {
        Submodel m(nullptr, "m");
        Integrator i(1.0, &m, "i");
        i.connect({a}, {b});
        Gain g(-1.0, &m, "g");
        g.connect({b}, {a});
        Rkf45 st;
        Simulator s(m, nullptr, k == "steps" ? &st : nullptr);
        s.init(0.0);
        s.run(1.0);
        return true;
    }
    if (k == "bad_limits" || k == "zero_min")
    {
        Submodel m(nullptr, "m");
        Integrator i(1.0, &m, "i");
        i.connect({a}, {b});
        Gain g(-1.0, &m, "g");
        g.connect({b}, {a});
        Rk4 st;
        Simulator s(m, nullptr, &st);
        s.init(0.0);
        if (k == "zero_min") s.run(1.0, 0.0, 1.0);
        else s.run(1.0, 0.5, 0.25);
        return true;
    }
    std::cerr << "driver: single op " << k;
    std::exit(2);
}

} // namespace

void facet_diag(const json& sc)
{
    Rig rig;
    std::shared_ptr<RootSub> root;
    FailingStepper st(rig);
    std::vector<std::unique_ptr<SimulatorBase>> sims;
    SimulatorBase* cur = nullptr;
    if (sc.contains("blks"))
    {
        root = std::make_shared<RootSub>(rig, sc.value("root", std::string("root")));
        rig.subs.push_back(root); // -1
        for (auto& d : sc["subs"]) rig.subs.push_back(std::make_shared<Submodel>(rig.subs.at(d["par"].get<int>() - 1).get(), d["nm"].get<std::string>()));
        for (int k = 0; k < sc["ns"].get<int>(); k++) rig.sigs.push_back(ScalarSignal("x" + std::to_string(k + 1)));
        int i = 0;
        for (auto& d : sc["blks"])
        {
            i++;
            const std::string k = d["k"], nm = d["nm"];
            Submodel* p = rig.subs.at(d["par"].get<int>() - 1).get();
            std::shared_ptr<Block> b;
            if (k == "user") b = std::make_shared<UserLeaf>(rig, i, p, nm);
            else if (k == "func")
                b = std::make_shared<Function>(
                    [&rig, i](double t, const Bus& ib, const Bus& ob)
                    {
                        rig.fail("act", i);
                        ScalarSignal(ob.at(std::size_t(0))) = ScalarSignal(ib.at(std::size_t(0))) + t;
                    },
                    p, nm, 1, 1);
            else if (k == "source") b = std::make_shared<Source>([&rig, i](double t) -> double { rig.fail("act", i); return t; }, p, nm);
            else if (k == "gain") b = std::make_shared<Gain>(0.5, p, nm);
            else if (k == "mem") b = std::make_shared<Memory>(0.25, p, nm);
            else if (k == "integ") b = std::make_shared<Integrator>(1.0, p, nm);
            else { std::cerr << "driver: diag block"; std::exit(2); }
            rig.blks.push_back(b);
            std::vector<Signal> is, os;
            if (d["i"].get<int>()) is.push_back(rig.sigs.at(d["i"].get<int>() - 1));
            os.push_back(rig.sigs.at(d["o"].get<int>() - 1));
            b->connect(make_bus(is), make_bus(os));
        }
    }
    for (auto& op : sc["ops"])
    {
        const std::string o = op["op"];
        if (o == "fault")
        {
            rig.fault       = Fault();
            rig.fault.b     = op["b"];
            rig.fault.where = op["where"];
            rig.fault.kind  = op["kind"];
            rig.fault.nth   = op["nth"];
            // messages of all lengths
            for (int k = op.value("len", 0); k > 0; k--) rig.fault.msg += " and " + std::to_string(k);
            continue;
        }
        int ok = 1;
        json r{{"lib", 0}, {"same", 0}, {"has", 0}, {"path", json::array()}, {"frames", 0}, {"nofile", 0}, {"outer", 0}};
        const bool before = rig.fault.fired;
        try
        {
            if (o == "sim")
            {
                const std::string eng = op["eng"];
                auto cb               = [&rig](Block&, double) { rig.fail("cb", 0); };
                if (eng == "fast") sims.push_back(std::make_unique<FastSimulator>(*root, cb, &st));
                else sims.push_back(std::make_unique<Simulator>(*root, cb, &st, eng == "reuse"));
                cur = sims.back().get();
            }
            else if (o == "init") cur->init(dbl(op["t"]));
            else if (o == "run") cur->run(dbl(op["t"]), 1e-3, dbl(op["mx"]));
            else if (o == "single") ok = single_op(op["k"]) ? 1 : 0;
            else { std::cerr << "driver: diag op"; std::exit(2); }
        }
        catch (const std::exception& e)
        {
            ok = 0;
            r  = report(rig, e.what());
        }
        catch (...)
        {
            ok = 0;
        }
        r["e"] = "op"; r["op"] = op; r["ok"] = ok; r["fired"] = (!before && rig.fault.fired) ? 1 : 0; r["tr"] = trace_depth();
        r["fb"] = rig.fault.b; r["fw"] = rig.fault.where; r["fk"] = rig.fault.kind;
        out(r);
    }
}

} // namespace drv
