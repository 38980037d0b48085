from . import specs_core, specs_inst, specs_search, specs_sorted, specs_run, specs_greedy
SPECS = {}
for m in (specs_core, specs_inst, specs_search, specs_sorted, specs_run, specs_greedy):
    SPECS.update(m.SPECS)
