"""Which machinery decides which property, and how much of it runs in which tier."""
import core
from core import generic
import special

def plan(fam, rnd, trace=0, mc=200):
    def run(rep):
        if rep.tier == "thorough": return generic(rep, 100000, rnd * 10, 60, trace * 8, scale=1, mc_limit=1500, n_alt=160)[0]
        return generic(rep, fam, rnd, 40, trace, scale=0, mc_limit=mc, n_alt=16)[0]
    return run

PLANS = {p: plan(150, 110) for p in core.FIELDS}
PLANS["C02"] = plan(135, 110, 24); PLANS["C14"] = plan(150, 110, 40); PLANS["C18"] = plan(120, 110, 24)
PLANS["C18"] = special.plan_rules
PLANS["C16"] = special.plan_constexpr
PLANS["C17"] = special.plan_containers
PLANS["C19"] = special.plan_results
PLANS["C23"] = special.plan_examples
PLANS["C20"] = special.plan_schedules
import accept
PLANS["C24"] = accept.plan_accept
