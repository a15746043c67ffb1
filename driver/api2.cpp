// Facets: the block tree, connections, histories.
#include "common.hpp"
#include "src/block/extra/add.hpp"
#include "src/block/extra/const.hpp"
#include "src/block/extra/delay.hpp"
#include "src/block/extra/derivative.hpp"
#include "src/block/extra/function.hpp"
#include "src/block/extra/gain.hpp"
#include "src/block/extra/memory.hpp"
#include "src/block/extra/multiply.hpp"
#include "src/block/extra/pipe.hpp"
#include "src/block/extra/source.hpp"
#include "src/block/extra/subtract.hpp"
#include "src/block/integrator.hpp"
#include "src/block/extra/triggered_integrator.hpp"
#include "src/solver/history.hpp"
#include <cstdio>
#include <unistd.h>

namespace drv
{

namespace
{
struct Plain : public Leaf
{
    Plain(Submodel* p, std::string_view n, int ni, int no)
        : Leaf(p, n, ni < 0 ? NoIOLimit : uint16_t(ni), no < 0 ? NoIOLimit : uint16_t(no))
    {
    }
};
} // namespace

void facet_tree(const json& sc)
{
    struct Sub : public Submodel
    {
        using Submodel::Submodel;
    };
    std::vector<std::shared_ptr<Block>> blks;
    auto id_of = [&](const Block* b) -> int
    {
        for (std::size_t k = 0; k < blks.size(); k++)
            if (blks[k].get() == b) return int(k) + 1;
        return b ? -1 : 0;
    };
    auto at  = [&](const json& k) -> Block& { return *blks.at(k.get<int>() - 1); };
    auto sub = [&](const json& k) -> Submodel& { return dynamic_cast<Submodel&>(*blks.at(k.get<int>() - 1)); };
    for (auto& op : sc["ops"])
    {
        const std::string o = op["op"];
        std::string r       = "T";
        json vis            = json::array();
        try
        {
            if (o == "mk")
            {
                Submodel* par = op["par"] == 0 ? nullptr : &sub(op["par"]);
                if (op["leaf"] == 1) blks.push_back(std::make_shared<Plain>(par, "leaf", -1, -1));
                else blks.push_back(std::make_shared<Sub>(par, "sub"));
            }
            else if (o == "setp") r = at(op["b"]).set_parent(sub(op["p"])) ? "T" : "F";
            else if (o == "add") r = sub(op["p"]).add_block(at(op["b"])) ? "T" : "F";
            else if (o == "link") r = sub(op["p"]).link_block(at(op["b"])) ? "T" : "F";
            else if (o == "visit")
            {
                int n          = 0;
                const int stop = op["stop"];
                bool done;
                if (op["c"] == 1)
                {
                    const Block& b = at(op["b"]);
                    auto cb        = [&](const Block& x, uint32_t l) -> bool
                    {
                        vis.push_back(json::array({id_of(&x), l}));
                        return ++n != stop;
                    };
                    done = op["max"] == -1 ? b.const_visit(cb, op["lvl"].get<uint32_t>()) : b.const_visit(cb, op["lvl"].get<uint32_t>(), op["max"].get<uint32_t>());
                }
                else
                {
                    Block& b = at(op["b"]);
                    auto cb  = [&](Block& x, uint32_t l) -> bool
                    {
                        vis.push_back(json::array({id_of(&x), l}));
                        return ++n != stop;
                    };
                    done = op["max"] == -1 ? b.visit(cb, op["lvl"].get<uint32_t>()) : b.visit(cb, op["lvl"].get<uint32_t>(), op["max"].get<uint32_t>());
                }
                r = done ? "T" : "F";
            }
            else { std::cerr << "driver: tree op"; std::exit(2); }
        }
        catch (const std::exception& e)
        {
            r = "X";
        }
        json par = json::array(), kids = json::array(), con = json::array();
        for (auto& b : blks)
        {
            par.push_back(id_of(b->parent()));
            con.push_back(b->connected() ? 1 : 0);
            json k = json::array();
            // what a visit of the block's children shows
            b->visit([&](Block& x, uint32_t l) -> bool { if (l == 1) k.push_back(id_of(&x)); return k.size() < 200; }, 0, 1);
            kids.push_back(k);
        }
        out({{"e", "op"}, {"op", op}, {"r", r}, {"vis", vis}, {"par", par}, {"kids", kids}, {"con", con}, {"tr", trace_depth()}});
    }
}

void facet_conn(const json& sc)
{
    std::vector<Signal> objs;
    std::vector<std::shared_ptr<Block>> blks;
    Submodel root(nullptr, "root");
    auto id_of = [&](const SignalImpl* s) -> int
    {
        for (std::size_t k = 0; k < objs.size(); k++)
            if (&objs[k].impl() == s) return int(k) + 1;
        return -1;
    };
    auto list = [&](const json& ids)
    {
        std::vector<Signal> v;
        for (auto& x : ids) v.push_back(objs.at(x.get<int>() - 1));
        return v;
    };
    auto labelled = [&](const json& ids, const json& ls)
    {
        std::vector<std::pair<std::string, Signal>> v;
        for (std::size_t k = 0; k < ids.size(); k++) v.emplace_back(ls[k].get<std::string>(), objs.at(ids[k].get<int>() - 1));
        return v;
    };
    for (auto& op : sc["ops"])
    {
        const std::string o = op["op"];
        int ok              = 1;
        std::string why;
        try
        {
            if (o == "sig") objs.push_back(make_signal(op["ty"].get<std::string>()[0], 1, op.value("nm", "x" + std::to_string(objs.size() + 1))));
            else if (o == "bus") objs.push_back(make_bus(list(op["of"]), "bus"));
            else if (o == "blk")
            {
                const std::string k = op["k"];
                std::shared_ptr<Block> b;
                const int ni = op["ni"], no = op["no"];
                Submodel* p = op["late"] == 1 ? nullptr : &root;
                auto lim    = [](int n) { return n < 0 ? Block::NoIOLimit : uint16_t(n); };
                if (k == "plain") b = std::make_shared<Plain>(p, "b", ni, no);
                else if (k == "sub") b = std::make_shared<Submodel>(p, "b", lim(ni), lim(no));
                else if (k == "gain") b = std::make_shared<Gain>(2.0, p, "b");
                else if (k == "pipe") b = std::make_shared<Pipe>(p, "b");
                else if (k == "add") b = std::make_shared<Add>(0.0, p, "b");
                else if (k == "mul") b = std::make_shared<Multiply>(1.0, p, "b");
                else if (k == "sub2") b = std::make_shared<Subtract>(p, "b");
                else if (k == "const") b = std::make_shared<Const>(1.0, p, "b");
                else if (k == "source") b = std::make_shared<Source>([](double t) { return t; }, p, "b");
                else if (k == "mem") b = std::make_shared<Memory>(1.0, p, "b");
                else if (k == "integ") b = std::make_shared<Integrator>(1.0, p, "b");
                else if (k == "deriv") b = std::make_shared<Derivative>(1.0, p, "b");
                else if (k == "func") b = std::make_shared<Function>([](double, const Bus&, const Bus&) {}, p, "b", lim(ni), lim(no));
                else { std::cerr << "driver: conn block"; std::exit(2); }
                blks.push_back(b);
            }
            else if (o == "connect" || o == "addb")
            {
                Block& b = *blks.at(op["b"].get<int>() - 1);
                const bool lab = op.contains("il");
                Bus ib = lab ? make_bus(labelled(op["i"], op["il"])) : make_bus(list(op["i"]));
                Bus ob = make_bus(list(op["o"]));
                if (o == "connect") ok = b.connect(ib, ob) ? 1 : 0;
                else ok = root.add_block(b, ib, ob) ? 1 : 0;
            }
            else { std::cerr << "driver: conn op"; std::exit(2); }
        }
        catch (const std::exception& e)
        {
            ok  = 0;
            why = first_lines(e.what());
        }
        json jb = json::array();
        for (auto& b : blks)
        {
            json i = json::array(), ou = json::array(), ln = json::array();
            for (auto& [l, s] : b->ibus()) i.push_back(id_of(&s.impl()));
            for (auto& [l, s] : b->obus()) ou.push_back(id_of(&s.impl()));
            for (auto& [s, m] : b->linked_signals())
                ln.push_back(json::array({id_of(s.get()), (m & Block::Input) ? 1 : 0, (m & Block::Output) ? 1 : 0}));
            jb.push_back(json{{"con", b->connected() ? 1 : 0}, {"i", i}, {"o", ou}, {"ln", ln}});
        }
        out({{"e", "op"}, {"op", op}, {"ok", ok}, {"blks", jb}, {"tr", trace_depth()}, {"why", why}});
    }
}

static std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> r(1);
    for (char x : s)
    {
        if (x == c) r.emplace_back();
        else r.back().push_back(x);
    }
    return r;
}

void facet_hist(const json& sc)
{
    std::vector<Signal> objs;
    std::unique_ptr<History> h;
    for (auto& op : sc["ops"])
    {
        const std::string o = op["op"];
        json e{{"e", "op"}, {"op", op}};
        int ok = 1;
        try
        {
            auto s = [&]() -> Signal& { return objs.at(op["s"].get<int>() - 1); };
            if (o == "sig") objs.push_back(make_signal(op["ty"].get<std::string>()[0], op["sz"].get<std::size_t>(), op["nm"].get<std::string>()));
            else if (o == "bus") objs.push_back(make_bus(std::vector<Signal>{objs.at(0)}, "bus"));
            else if (o == "new") h = op["grow"] == 0 ? std::make_unique<History>() : std::make_unique<History>(op["grow"].get<unsigned>());
            else if (o == "set")
            {
                auto& v = dynamic_cast<ValueSignalImpl&>(s().impl());
                v.clear();
                sig_set(s().impl(), dbls(op["v"]));
            }
            else if (o == "clear") dynamic_cast<ValueSignalImpl&>(s().impl()).clear();
            else if (o == "track") ok = h->track(s()) ? 1 : 0;
            else if (o == "untrack") h->untrack(s());
            else if (o == "upd") h->update(op["k"].get<unsigned>(), dbl(op["t"]));
            else if (o == "shrink") h->shrink_to_fit();
            else if (o == "read")
            {
                e["n"]  = h->nrows();
                e["tn"] = h->time().rows();
                json t = json::array();
                for (unsigned k = 0; k < h->nrows() && k < h->time().rows(); k++) t.push_back(num(h->time()[k]));
                e["t"]  = t;
                json ms = json::array();
                for (std::size_t k = 0; k < objs.size(); k++)
                {
                    auto p = std::dynamic_pointer_cast<ValueSignalImpl>(objs[k]->shared_from_this());
                    if (!p || h->find(p) == h->end()) continue;
                    const Eigen::MatrixXd& m = (*h)[objs[k]];
                    json rows                = json::array();
                    for (unsigned r = 0; r < h->nrows() && r < m.rows(); r++)
                    {
                        json row = json::array();
                        for (Eigen::Index c = 0; c < m.cols(); c++) row.push_back(num(m(r, c)));
                        rows.push_back(row);
                    }
                    ms.push_back(json{{"s", int(k) + 1}, {"rows", m.rows()}, {"v", rows}});
                }
                e["m"]    = ms;
                e["size"] = h->size();
            }
            else if (o == "csv")
            {
                // the current directory is the check's scratch directory
                const std::string fn = "hist" + std::to_string(out.part) + ".csv";
                std::remove(fn.c_str());
                if (op.contains("pre")) std::ofstream(fn) << "old content\nthat is longer than one line\n1,2,3\n4,5,6\n7,8,9\n";
                h->export_csv(fn);
                std::ifstream in(fn, std::ios::binary);
                json lines = json::array();
                std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
                e["file"] = in ? 1 : 0;
                e["nl"]   = (!all.empty() && all.back() == '\n') ? 1 : 0;
                if (!all.empty() && all.back() == '\n') all.pop_back();
                for (auto& l : split(all, '\n'))
                {
                    json fields = split(l, ',');
                    // numbers as the specification reads them
                    if (!lines.empty())
                        for (auto& f : fields)
                        {
                            const std::string x = f;
                            char* end           = nullptr;
                            const double v      = std::strtod(x.c_str(), &end);
                            if (!x.empty() && *end == 0 && !std::isfinite(v)) f = num(v);
                        }
                    lines.push_back(fields);
                }
                e["head"] = lines.empty() ? json::array() : lines[0];
                if (!lines.empty()) lines.erase(0);
                e["lines"] = lines;
                std::remove(fn.c_str());
            }
            else { std::cerr << "driver: hist op"; std::exit(2); }
        }
        catch (const std::exception& ex)
        {
            ok       = 0;
            e["why"] = first_lines(ex.what());
        }
        e["ok"] = ok;
        e["tr"] = trace_depth();
        out(e);
    }
}

} // namespace drv
