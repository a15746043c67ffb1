// Facets that exercise the signal, bus and naming interfaces: each operation's outcome and everything observable after it.
#include "common.hpp"
#include <algorithm>

namespace drv
{

std::string bytes(const json& j)
{
    std::string r;
    for (auto& x : j) r.push_back(static_cast<char>(x.get<int>()));
    return r;
}

json jbytes(const std::string& s)
{
    json r = json::array();
    for (unsigned char c : s) r.push_back(int(c));
    return r;
}

namespace
{

struct Handle
{
    char ty{0}; // g: generic
    std::unique_ptr<Signal> g;
    std::unique_ptr<ScalarSignal> s;
    std::unique_ptr<IntSignal> i;
    std::unique_ptr<BoolSignal> b;
    std::unique_ptr<ArraySignal> a;
    std::unique_ptr<Bus> u;
    const Signal& sig() const
    {
        switch (ty)
        {
        case 'g': return *g;
        case 's': return *s;
        case 'i': return *i;
        case 'b': return *b;
        case 'a': return *a;
        default: return *u;
        }
    }
    // the signal this handle denotes according to its typed interface
    const SignalImpl* typed() const
    {
        switch (ty)
        {
        case 'g': return &g->impl();
        case 's': return s->operator->();
        case 'i': return i->operator->();
        case 'b': return b->operator->();
        case 'a': return a->operator->();
        default: return u->operator->();
        }
    }
    const SignalImpl* base() const
    {
        const Signal& x = sig();
        return &x.impl();
    }
};

template<typename A>
Handle make_handle(char ty, A&& from)
{
    Handle h;
    h.ty = ty;
    switch (ty)
    {
    case 'g': h.g = std::make_unique<Signal>(from); break;
    case 's': h.s = std::make_unique<ScalarSignal>(from); break;
    case 'i': h.i = std::make_unique<IntSignal>(from); break;
    case 'b': h.b = std::make_unique<BoolSignal>(from); break;
    case 'a': h.a = std::make_unique<ArraySignal>(from); break;
    case 'B': h.u = std::make_unique<Bus>(from); break;
    default: throw std::logic_error("driver: handle type");
    }
    return h;
}

} // namespace

void facet_sig(const json& sc)
{
    std::map<int, Handle> hs;
    std::vector<std::weak_ptr<SignalImpl>> objs;
    auto id_of = [&](const SignalImpl* p) -> int
    {
        for (std::size_t k = 0; k < objs.size(); k++)
            if (auto q = objs[k].lock(); q && q.get() == p) return int(k) + 1;
        return 0;
    };
    for (auto& op : sc["ops"])
    {
        const std::string o = op["op"];
        int ok              = 1;
        json val            = json::array();
        std::string why;
        try
        {
            auto put = [&](Handle&& h) { hs[op["h"].get<int>()] = std::move(h); };
            if (o == "new")
            {
                const char ty = op["ty"].get<std::string>()[0];
                const std::size_t sz = op.value("sz", 1);
                Handle h;
                h.ty = ty;
                switch (ty)
                {
                case 's': h.s = std::make_unique<ScalarSignal>("x"); break;
                case 'i': h.i = std::make_unique<IntSignal>("x"); break;
                case 'b': h.b = std::make_unique<BoolSignal>("x"); break;
                default: h.a = std::make_unique<ArraySignal>(sz, "x");
                }
                objs.push_back(h.sig().impl().shared_from_this());
                put(std::move(h));
            }
            else if (o == "bus")
            {
                std::vector<Signal> v;
                for (auto& x : op["of"]) v.push_back(hs.at(x).sig());
                Handle h;
                h.ty = 'B';
                h.u  = std::make_unique<Bus>(make_bus(v, "bus"));
                objs.push_back(h.sig().impl().shared_from_this());
                put(std::move(h));
            }
            else if (o == "copy")
            {
                Handle& f = hs.at(op["from"]);
                Handle h;
                h.ty = f.ty;
                switch (f.ty)
                {
                case 'g': h.g = std::make_unique<Signal>(*f.g); break;
                case 's': h.s = std::make_unique<ScalarSignal>(*f.s); break;
                case 'i': h.i = std::make_unique<IntSignal>(*f.i); break;
                case 'b': h.b = std::make_unique<BoolSignal>(*f.b); break;
                case 'a': h.a = std::make_unique<ArraySignal>(*f.a); break;
                default: h.u = std::make_unique<Bus>(*f.u);
                }
                put(std::move(h));
            }
            else if (o == "make") // a handle of a type from a generic reference, or from the signal itself
            {
                const Signal& f = hs.at(op["from"]).sig();
                const char ty   = op["ty"].get<std::string>()[0];
                if (op["via"] == "impl") put(make_handle<SignalImpl&>(ty, f.impl()));
                else put(make_handle<const Signal&>(ty, f));
            }
            else if (o == "reset")
            {
                Handle& h       = hs.at(op["h"]);
                const Signal& f = hs.at(op["from"]).sig();
                switch (h.ty)
                {
                case 's': h.s->reset(f); break;
                case 'i': h.i->reset(f); break;
                case 'b': h.b->reset(f); break;
                case 'a': h.a->reset(f); break;
                case 'B': h.u->reset(f); break;
                default: throw std::logic_error("driver: reset");
                }
            }
            else if (o == "drop") hs.erase(op["h"].get<int>());
            else if (o == "set")
            {
                Handle& h = hs.at(op["h"]);
                auto v    = dbls(op["v"]);
                switch (h.ty)
                {
                case 's': *h.s = v.at(0); break;
                case 'i': *h.i = int(v.at(0)); break;
                case 'b': *h.b = v.at(0) > 0; break;
                case 'a': *h.a = to_array(v); break;
                default: throw std::logic_error("driver: set");
                }
            }
            else if (o == "asg")
            {
                Handle &h = hs.at(op["h"]), &f = hs.at(op["from"]);
                switch (h.ty)
                {
                case 's': *h.s = *f.s; break;
                case 'i': *h.i = *f.i; break;
                case 'b': *h.b = *f.b; break;
                case 'a': *h.a = *f.a; break;
                default: throw std::logic_error("driver: asg");
                }
            }
            else if (o == "get")
            {
                Handle& h = hs.at(op["h"]);
                switch (h.ty)
                {
                case 's': val.push_back(num(double(*h.s))); break;
                case 'i': val.push_back(std::to_string(int(*h.i))); break;
                case 'b': val.push_back(bool(*h.b) ? "1" : "0"); break;
                case 'a': val = jarr(static_cast<const Array&>(*h.a)); break;
                default: throw std::logic_error("driver: get");
                }
            }
            else if (o == "clear") dynamic_cast<ValueSignalImpl&>(hs.at(op["h"]).sig().impl()).clear();
            else throw std::logic_error("driver: sig op");
        }
        catch (const std::logic_error& e)
        {
            if (std::string(e.what()).rfind("driver:", 0) == 0) { std::cerr << e.what(); std::exit(2); }
            ok = 0;
        }
        catch (const std::exception& e)
        {
            ok  = 0;
            why = first_lines(e.what());
        }
        json jh = json::array(), jo = json::array(), al = json::array();
        for (auto& [k, h] : hs) jh.push_back(json::array({k, id_of(h.base()), id_of(h.typed())}));
        for (std::size_t k = 0; k < objs.size(); k++)
            if (auto p = objs[k].lock())
            {
                al.push_back(int(k) + 1);
                jo.push_back(json{{"id", int(k) + 1}, {"ty", std::string(1, sig_type(*p))}, {"asg", sig_assigned(*p) ? 1 : 0}, {"val", sig_value(*p)}});
            }
        out({{"e", "op"}, {"op", op}, {"ok", ok}, {"val", val}, {"hs", jh}, {"ob", jo}, {"al", al}, {"tr", trace_depth()}, {"why", why}});
    }
}

void facet_bus(const json& sc)
{
    std::vector<Signal> objs;
    auto id_of = [&](const Signal& s) -> int
    {
        for (std::size_t k = 0; k < objs.size(); k++)
            if (&objs[k].impl() == &s.impl()) return int(k) + 1;
        return -1;
    };
    for (auto& op : sc["ops"])
    {
        const std::string o = op["op"];
        json e{{"e", "op"}, {"op", op}};
        int ok = 1, got = 0;
        try
        {
            if (o == "sig") objs.push_back(make_signal(op["ty"].get<std::string>()[0], 2, bytes(op["nm"])));
            else if (o == "bus")
            {
                Bus b = [&]
                {
                    if (op["auto"] == 1)
                    {
                        std::vector<Signal> v;
                        for (auto& x : op["els"]) v.push_back(objs.at(x["o"].get<int>() - 1));
                        return make_bus(v, bytes(op["nm"]));
                    }
                    std::vector<std::pair<std::string, Signal>> v;
                    for (auto& x : op["els"]) v.emplace_back(bytes(x["l"]), objs.at(x["o"].get<int>() - 1));
                    return make_bus(v, bytes(op["nm"]));
                }();
                objs.push_back(b);
                json els = json::array();
                for (auto& [l, s] : b) els.push_back(json{{"l", jbytes(l)}, {"o", id_of(s)}});
                e["els"]  = els;
                e["size"] = b.size();
            }
            else
            {
                Bus b(objs.at(op["b"].get<int>() - 1));
                const std::string l = op.contains("l") ? bytes(op["l"]) : "";
                if (o == "ati") got = id_of(b.at(op["k"].get<std::size_t>()));
                else if (o == "opi") got = id_of(b[op["k"].get<std::size_t>()]);
                else if (o == "at") got = id_of(b.at(l));
                else if (o == "op") got = id_of(b[l]);
                else if (o == "iat") got = id_of(b->at(l));
                else if (o == "try")
                {
                    auto r = b->try_at(l);
                    got    = r ? id_of(*r) : 0;
                }
                else { std::cerr << "driver: bus op"; std::exit(2); }
            }
        }
        catch (const std::exception& ex)
        {
            ok       = 0;
            e["why"] = first_lines(ex.what());
        }
        json nm = json::array();
        for (auto& s : objs) nm.push_back(jbytes(s->name().str()));
        e["ok"]  = ok;
        e["got"] = got;
        e["nm"]  = nm;
        e["tr"]  = trace_depth();
        out(e);
    }
}

void facet_name(const json& sc)
{
    std::vector<std::shared_ptr<Block>> blks;
    std::vector<Signal> sigs;
    struct L : public Leaf
    {
        L(Submodel* p, std::string_view n) : Leaf(p, n) {}
    };
    for (auto& op : sc["ops"])
    {
        const std::string o = op["op"];
        auto par = [&]() -> Submodel* { int p = op["par"]; return p ? dynamic_cast<Submodel*>(blks.at(p - 1).get()) : nullptr; };
        const std::string nm = op.contains("nm") ? bytes(op["nm"]) : "";
        json e{{"e", "op"}, {"op", op}};
        json v = json::array();
        if (o == "blk")
        {
            if (op["leaf"] == 1) blks.push_back(std::make_shared<L>(par(), nm));
            else blks.push_back(std::make_shared<Submodel>(par(), nm));
        }
        else if (o == "setp") blks.at(op["b"].get<int>() - 1)->set_parent(*par());
        else if (o == "ren") blks.at(op["b"].get<int>() - 1)->rename(nm);
        else if (o == "sig") sigs.push_back(make_signal(op["ty"].get<std::string>()[0], 1, nm));
        else if (o == "rens") sigs.at(op["s"].get<int>() - 1)->rename(nm);
        else if (o == "valid") v = jbytes(ValidName(nm).str());
        else if (o == "validasg")
        {
            ValidName x("old");
            x = std::string_view(nm);
            v = jbytes(x.str());
        }
        else if (o == "dot") v = jbytes((ValidName(bytes(op["a"])) | nm).str());
        else if (o == "slash") v = jbytes((ValidName(bytes(op["a"])) / nm).str());
        else { std::cerr << "driver: name op"; std::exit(2); }
        json bn = json::array(), fn = json::array(), sn = json::array();
        for (auto& b : blks)
        {
            bn.push_back(jbytes(b->name().str()));
            fn.push_back(jbytes(b->full_name().str()));
        }
        for (auto& s : sigs) sn.push_back(jbytes(s->name().str()));
        e["v"] = v; e["bn"] = bn; e["fn"] = fn; e["sn"] = sn; e["tr"] = trace_depth();
        out(e);
    }
}

} // namespace drv
