// Records restart schedules being advanced, copied and read, for LubyTrace.tla.
#include "common.hh"
#include <gcs/restarts.hh>
using namespace verif;
using gcs::RestartSchedule;

int main(int argc, char ** argv)
{
    Args args(argc, argv);
    Rng rng(args.seed);
    Shards out(args.out, "luby", args.shards);

    // one schedule, every cutoff
    out(ev("begin"));
    {
        auto s = RestartSchedule::luby(1);
        out(ev("create").add("h", 1).add("scale", big(1)));
        for (int i = 0, n = args.thorough ? 20000 : 4200; i < n; ++i) {
            out(ev("cutoff").add("h", 1).add("r", big(s.current_cutoff())));
            s.advance();
            out(ev("advance").add("h", 1).add("n", 1));
        }
    }
    // the default scale
    out.next();
    out(ev("begin"));
    {
        auto s = RestartSchedule::luby();
        out(ev("create").add("h", 1).add("scale", big(100)));
        for (int i = 0; i < 70; ++i) {
            out(ev("cutoff").add("h", 1).add("r", big(s.current_cutoff())));
            s.advance();
            out(ev("advance").add("h", 1).add("n", 1));
        }
    }
    // random histories over several schedules
    for (int session = 0, sessions = args.thorough ? 400 : 60; session < sessions; ++session) {
        out.next();
        out(ev("begin"));
        std::vector<RestartSchedule> all;
        auto make = [&]() {
            unsigned long long scale = rng.chance(1, 8) ? 0 : rng.chance(1, 4) ? static_cast<unsigned long long>(rng.in(1, 1000000000000ll)) : static_cast<unsigned long long>(rng.in(1, 500));
            all.push_back(RestartSchedule::luby(scale));
            out(ev("create").add("h", static_cast<int>(all.size())).add("scale", big(static_cast<__int128>(scale))));
        };
        make();
        for (int step = 0; step < 60; ++step) {
            auto h = static_cast<std::size_t>(rng.in(0, static_cast<long long>(all.size()) - 1));
            switch (rng.in(0, 9)) {
            case 0:
                if (all.size() < 5)
                    make();
                break;
            case 1: {
                auto from = static_cast<std::size_t>(rng.in(0, static_cast<long long>(all.size()) - 1));
                if (rng.chance(1, 2) && all.size() < 6) {
                    all.push_back(all[from]);
                    h = all.size() - 1;
                }
                else
                    all[h] = all[from];
                out(ev("copy").add("h", static_cast<int>(h + 1)).add("from", static_cast<int>(from + 1)));
            } break;
            case 2:
            case 3: {
                int n = static_cast<int>(rng.chance(1, 3) ? rng.in(1, 3000000) : rng.chance(1, 2) ? (1ll << rng.in(1, 22)) : rng.in(1, 200));
                for (int i = 0; i < n; ++i)
                    all[h].advance();
                out(ev("advance").add("h", static_cast<int>(h + 1)).add("n", n));
            } break;
            case 4:
            case 5:
                all[h].advance();
                out(ev("advance").add("h", static_cast<int>(h + 1)).add("n", 1));
                break;
            default:
                out(ev("cutoff").add("h", static_cast<int>(h + 1)).add("r", big(static_cast<__int128>(all[h].current_cutoff()))));
            }
        }
    }
}
