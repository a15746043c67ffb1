#include "sim.hpp"
#include "src/solver/euler.hpp"
#include "src/solver/fast_simulator.hpp"
#include "src/solver/history.hpp"
#include "src/solver/rk4.hpp"
#include "src/solver/rkf45.hpp"
#include "src/solver/simulator.hpp"

namespace drv
{

void Ctx::apply_inputs(double t, const char* via)
{
    json pre = log ? assigned() : json::array();
    json set = json::array();
    evals++;
    for (auto& x : sc["ext"])
    {
        if (x["via"] != via) continue;
        if (x.contains("off") && t >= dbl(x["off"])) continue; // this input is not provided from then on
        if (x.contains("on") && t < dbl(x["on"])) continue;    // or not before
        int id     = x["s"];
        auto& impl = sigs.at(id - 1).impl();
        std::size_t n = sc["sigs"][id - 1]["sz"];
        // some inputs are different ones in each call, even for the same time
        double jit = x.contains("jit") ? dbl(x["jit"]) * calls : 0;
        // ... or in each evaluation
        if (x.contains("jev")) jit += dbl(x["jev"]) * (evals % 5);
        sig_set(impl, fn_vec(x["fn"], t + jit, n));
        if (log) set.push_back(json::array({id, sig_value(impl)}));
    }
    if (log) out({{"e", "inp"}, {"src", via}, {"t", num(t)}, {"pre", pre}, {"set", set}});
}

namespace
{

struct RootProbe : public Submodel
{
    Ctx& ctx;
    RootProbe(Ctx& c, const std::string& name) : Submodel(nullptr, name), ctx(c) {}
    void input_cb(double t) override { ctx.apply_inputs(t, "root"); }
};

// exact Euler with scripted step-size suggestions and extra trial evaluations
class Script : public StepperBase
{
public:
    std::vector<std::string> sug;
    std::size_t k{0};
    int extra{0};
    Array d0, tmp;

    void step(StepperCallback cb, double t0, const Array& v0, double t1, Array& v1, double& new_h) override
    {
        const double h = t1 - t0;
        d0             = cb(t0, v0);
        for (int j = 0; j < extra; j++)
        {
            tmp = v0 + (j + 1) * h * d0 + double(j + 1);
            cb(t0 + (j + 1) * h / 2, tmp);
        }
        v1 = v0 + h * d0;
        new_h = h;
        if (k < sug.size())
        {
            const std::string& s = sug[k++];
            if (s == "T") throw std::runtime_error("stepper failed");
            new_h = s[0] == 'r' ? h * std::strtod(s.c_str() + 1, nullptr) : std::strtod(s.c_str(), nullptr);
        }
    }
};

class LogStepper : public StepperBase
{
public:
    std::shared_ptr<StepperBase> inner;
    Ctx& ctx;
    bool mark; // evaluate once with a recognisable state vector before the first step
    const bool marks;
    Array vm;
    explicit LogStepper(Ctx& c, bool m) : ctx(c), mark(m), marks(m) {}

    void step(StepperCallback cb, double t0, const Array& v0, double t1, Array& v1, double& new_h) override
    {
        const bool lg = ctx.log;
        if (lg || ctx.lean) out({{"e", "scall"}, {"t0", num(t0)}, {"v0", jarr(v0)}, {"t1", num(t1)}});
        int m                 = 0;
        StepperCallback logcb = [&](double t, const Array& v) -> const Array&
        {
            if (lg) out({{"e", "mcall"}, {"t", num(t)}, {"v", jarr(v)}, {"m", m}});
            const Array& d = cb(t, v);
            if (lg) out({{"e", "mret"}, {"d", jarr(d)}});
            return d;
        };
        if (mark)
        {
            mark = false;
            m    = 1;
            vm.resize(v0.size());
            for (Eigen::Index k = 0; k < vm.size(); k++) vm[k] = 1000.25 + 3.5 * double(k);
            logcb(t0, vm);
            m = 0;
        }
        inner->step(logcb, t0, v0, t1, v1, new_h);
        if (lg) out({{"e", "sret"}, {"v0", jarr(v0)}, {"v1", jarr(v1)}, {"nh", num(new_h)}});
    }
};

struct Sim
{
    std::unique_ptr<SimulatorBase> sim;
    std::unique_ptr<LogStepper> stp;
};

Bus bus_for(Ctx& c, const json& d, const char* ids, const char* labels, const char* busid)
{
    if (d.contains(busid) && d[busid].get<int>() > 0) return c.buses.at(d[busid].get<int>() - 1);
    std::vector<Signal> v;
    std::vector<std::pair<std::string, Signal>> lv;
    const bool lab = d.contains(labels) && !d[labels].empty();
    for (std::size_t k = 0; k < d[ids].size(); k++)
    {
        const Signal& s = c.sigs.at(d[ids][k].get<int>() - 1);
        if (lab) lv.emplace_back(d[labels][k].get<std::string>(), s);
        else v.push_back(s);
    }
    return lab ? make_bus(lv) : make_bus(v);
}

Submodel* parent_of(Ctx& c, const json& d)
{
    int k = d["par"];
    if (c.sc.value("rootleaf", 0)) return nullptr;
    return k == 0 ? c.rootsub.get() : c.subs.at(k - 1).get();
}

// makes block k; connects it unless that is to happen later
bool make_one(Ctx& c, int k, bool late)
{
    const json& sc      = c.sc;
    const int rootleaf  = sc.value("rootleaf", 0);
    auto& d             = sc["blks"][k - 1];
    const char ty       = d.value("ty", std::string("s"))[0];
    const bool add      = d.value("add", 0) != 0; // use add_block
    const std::string kind = d["k"];
    const bool busb     = kind == "busmem" || kind == "buspipe";
    BlkArgs a{c, k, d, (add && !busb) ? nullptr : parent_of(c, d), d.value("nm", std::string()), dbls(d["p"])};
    std::shared_ptr<Block> b = make_block_x(a);
    if (!b) b = ty == 'a' ? make_block_a(a) : make_block_s(a);
    if (!b) throw std::logic_error("driver: block kind " + kind);
    c.blks[k - 1] = b;
    if (rootleaf == k) c.root = b.get();
    if (late && !add) return false;
    Bus ib = bus_for(c, d, "i", "il", "bi"), ob = bus_for(c, d, "o", "ol", "bo");
    if (add && !busb && !rootleaf) parent_of(c, d)->add_block(*b, ib, ob);
    else b->connect(ib, ob);
    return true;
}

void build(Ctx& c)
{
    const json& sc = c.sc;
    for (auto& s : sc["sigs"])
        c.sigs.push_back(make_signal(s["ty"].get<std::string>()[0], s["sz"].get<std::size_t>(), s.value("nm", std::string())));
    for (auto& b : sc["buses"])
    {
        std::vector<std::pair<std::string, Signal>> v;
        for (auto& e : b["els"])
        {
            int id = e["id"];
            if (e["t"] == "b") v.emplace_back(e["l"].get<std::string>(), c.buses.at(id - 1));
            else v.emplace_back(e["l"].get<std::string>(), c.sigs.at(id - 1));
        }
        c.buses.push_back(make_bus(v));
    }
    const int rootleaf = sc.value("rootleaf", 0);
    if (!rootleaf)
    {
        c.rootsub = std::make_shared<RootProbe>(c, "root");
        c.root    = c.rootsub.get();
    }
    c.subs.resize(sc["subs"].size());
    c.blks.resize(sc["blks"].size());
    const bool late = sc.value("late", 0) != 0; // connect everything after construction, backwards
    const int n0 = sc.value("n0", int(c.blks.size())); // blocks beyond are added later
    std::vector<int> order;
    for (auto& x : sc["decl"])
    {
        int k = x[1];
        if (x[0] == "s")
        {
            auto& d       = sc["subs"][k - 1];
            c.subs[k - 1] = std::make_shared<Submodel>(parent_of(c, d), d["nm"].get<std::string>());
            if (d.contains("i")) c.subs[k - 1]->connect(bus_for(c, d, "i", "il", "bi"), bus_for(c, d, "o", "ol", "bo"));
            continue;
        }
        if (k <= n0 && !make_one(c, k, late)) order.push_back(k);
    }
    for (auto it = order.rbegin(); it != order.rend(); ++it)
    {
        auto& d = sc["blks"][*it - 1];
        c.blks[*it - 1]->connect(bus_for(c, d, "i", "il", "bi"), bus_for(c, d, "o", "ol", "bo"));
    }
}

} // namespace

void facet_sim(const json& sc)
{
    Ctx c;
    c.sc   = sc;
    c.lean = sc.value("lean", 0) != 0;
    c.log  = !c.lean;
    try
    {
        build(c);
    }
    catch (const std::logic_error& e)
    {
        const std::string w = e.what();
        if (w.rfind("driver:", 0) == 0) { std::cerr << w << "\n"; std::exit(2); }
        out({{"e", "built"}, {"ok", 0}, {"why", first_lines(w)}, {"tr", trace_depth()}});
        return;
    }
    catch (const std::exception& e)
    {
        out({{"e", "built"}, {"ok", 0}, {"why", first_lines(e.what())}, {"tr", trace_depth()}});
        return;
    }
    out({{"e", "built"}, {"ok", 1}, {"why", ""}, {"tr", trace_depth()}});

    std::vector<Sim> sims;
    SimulatorBase* cur = nullptr;
    std::unique_ptr<History> hist; // a recording of the results of each call
    uint hrow = 0;
    auto finish = [&](int ok, const std::string& why)
    {
        out({{"e", "ret"}, {"ok", ok}, {"why", why}, {"snap", c.snapshot()}, {"tr", trace_depth()}});
        out.flush();
    };
    for (auto& op : sc["ops"])
    {
        const std::string o = op["op"];
        if (o == "sim")
        {
            Sim s;
            const json& st      = op["stp"];
            const std::string k = st["k"];
            if (k != "none")
            {
                s.stp = std::make_unique<LogStepper>(c, st.value("mark", 0) != 0);
                if (k == "euler") s.stp->inner = std::make_shared<Euler>();
                else if (k == "rk4") s.stp->inner = std::make_shared<Rk4>();
                else if (k == "rkf45") s.stp->inner = std::make_shared<Rkf45>();
                else
                {
                    auto sp = std::make_shared<Script>();
                    for (auto& x : st["sug"]) sp->sug.push_back(x);
                    sp->extra = st.value("extra", 0);
                    s.stp->inner = std::move(sp);
                }
            }
            SimulatorBase::InputCallback cb = nullptr;
            if (op.value("cb", 1)) cb = [&c](Block&, double t) { c.apply_inputs(t, "cb"); };
            const std::string eng = op["eng"];
            if (eng == "fast") s.sim = std::make_unique<FastSimulator>(*c.root, cb, s.stp.get());
            else s.sim = std::make_unique<Simulator>(*c.root, cb, s.stp.get(), eng == "reuse");
            cur = s.sim.get();
            sims.push_back(std::move(s));
            json e = op;
            e["e"] = "sim";
            e["id"] = sims.size();
            out(e);
            continue;
        }
        if (o == "use") // back to an earlier simulator
        {
            cur = sims.at(op["id"].get<int>() - 1).sim.get();
            out({{"e", "use"}, {"id", op["id"]}});
            continue;
        }
        if (o == "grow") // the blocks up to n join the model
        {
            const int n = op["n"];
            for (auto& x : sc["decl"])
                if (x[0] == "b" && x[1] <= n && !c.blks[x[1].get<int>() - 1]) make_one(c, x[1], false);
            out({{"e", "grow"}, {"n", n}});
            continue;
        }
        if (o == "hist")
        {
            hist = std::make_unique<History>(op["grow"].get<unsigned>());
            hrow = 0;
            for (auto& x : op["ids"]) hist->track(c.sigs.at(x.get<int>() - 1));
            out({{"e", "hist"}, {"ids", op["ids"]}});
            continue;
        }
        if (o == "rows")
        {
            if (op.value("shrink", 0)) hist->shrink_to_fit();
            json t = json::array(), cols = json::array();
            for (uint k = 0; k < hist->nrows(); k++) t.push_back(num(hist->time()[k]));
            for (auto& x : op["ids"])
            {
                const Eigen::MatrixXd& m = (*hist)[c.sigs.at(x.get<int>() - 1)];
                json col                 = json::array();
                for (uint k = 0; k < hist->nrows(); k++)
                {
                    json row = json::array();
                    for (Eigen::Index j = 0; j < m.cols(); j++) row.push_back(num(m(k, j)));
                    col.push_back(row);
                }
                cols.push_back(col);
            }
            out({{"e", "rows"}, {"t", t}, {"ids", op["ids"]}, {"cols", cols}, {"tr", trace_depth()}});
            continue;
        }
        if (o == "throw") // from now on the user function of this block throws
        {
            c.throw_in = op["b"];
            continue;
        }
        json e = op;
        e["e"] = "call";
        out(e);
        c.calls++;
        try
        {
            if (o == "init")
            {
                // the order of the state vector is up to each initialization: find it out again
                for (auto& x : sims)
                    if (x.sim.get() == cur && x.stp) x.stp->mark = x.stp->marks;
                cur->init(dbl(op["t"]));
            }
            else if (op.contains("mn")) cur->run(dbl(op["t"]), dbl(op["mn"]), dbl(op["mx"]));
            else cur->run(dbl(op["t"]));
            finish(1, "");
            if (hist) hist->update(hrow++, dbl(op["t"]));
        }
        catch (const std::exception& ex)
        {
            finish(0, first_lines(ex.what()));
        }
    }
}

} // namespace drv
