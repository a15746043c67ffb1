// usage: pdrv <scenarios.ndjson> <trace.ndjson> <skip>
#include "common.hpp"
#include <csignal>
#include <unistd.h>

static void on_alarm(int)
{
    _exit(97); // the scenario hangs
}

namespace drv
{
bool facet_any(const json& sc)
{
    const std::string f = sc.at("f");
    if (f == "sim") facet_sim(sc);
    else if (f == "sig") facet_sig(sc);
    else if (f == "bus") facet_bus(sc);
    else if (f == "hist") facet_hist(sc);
    else if (f == "tree") facet_tree(sc);
    else if (f == "name") facet_name(sc);
    else if (f == "conn") facet_conn(sc);
    else if (f == "step") facet_step(sc);
    else if (f == "diag") facet_diag(sc);
    else if (f == "multi") facet_multi(sc);
    else return false;
    return true;
}
} // namespace drv

int main(int argc, char** argv)
{
    using namespace drv;
    if (argc < 4) return 2;
    std::ifstream in(argv[1]);
    std::ofstream of(argv[2], std::ios::app);
    if (!in || !of) return 2;
    out.os        = &of;
    long skip     = std::atol(argv[3]);
    unsigned secs = argc > 4 ? unsigned(std::atol(argv[4])) : 20;
    std::signal(SIGALRM, on_alarm);

    // the library reports warnings and unprocessed blocks on stdout
    struct : std::streambuf
    {
        int overflow(int c) override { return c == traits_type::eof() ? 0 : c; }
    } null;
    auto* coutbuf = std::cout.rdbuf(&null);

    std::string line;
    long k = 0;
    while (std::getline(in, line))
    {
        if (k++ < skip || line.empty()) continue;
        json sc = json::parse(line);
        if (sc.at("f") != "multi")
        {
            json hdr = sc;
            hdr["e"] = "model";
            out(hdr);
        }
        out.flush();
        alarm(secs);
        if (!facet_any(sc)) return 2;
        alarm(0);
        out({{"e", "end"}});
        out.flush();
    }
    of.close();
    std::cout.rdbuf(coutbuf);
    return 0;
}
