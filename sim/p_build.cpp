// C23: what is observed of a run does not depend on the kind of build. The plans are those of other properties; this
// file only picks one and executes it. The comparison with the same run in the other build is in main.cpp.
#include "session.hpp"

namespace sim
{

static const char* const kinds[] = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10",
                                    "C11", "C12", "C13", "C20", "C20", "C21"};

static Plan gen23(Rng& r, int tier)
{
    std::string as = kinds[r.below(int(sizeof kinds / sizeof *kinds))];
    if ((as == "C05" || as == "C10") && r.chance(0.5)) as = "C02"; // (slow ones)
    const Prop* p = find_prop(as);
    Plan plan     = p->gen(r, tier);
    plan.cfg().set("as", as);
    return plan;
}

static void exec23(const Plan& plan)
{
    std::string as = plan.cfg().str("as", "C02");
    bool known     = false;
    for (auto* k : kinds) known = known || as == k;
    if (!known)
    {
        invalid();
        return;
    }
    find_prop(as)->exec(plan);
}
static PropReg r23({"C23", gen23, exec23});

} // namespace sim
