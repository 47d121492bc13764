"""Per-property sizes, warm-up needs and evidence texts."""
BOTH = ["gen", "glm"]
SPECS = {
    "C01": dict(quick=1600, thorough=40000, warm=["gen"], level="exploration",
                rule="distinct combinations of (revision, start mode, element kinds present, transformer unit codes, bus count)",
                require={"networks": 200, "xfmrs3": 20, "xfmrs": 200}),
    "C02": dict(quick=1000, thorough=12000, warm=BOTH, level="exploration",
                rule="distinct modelling features exercised (element kind x phases x connection x spelling)",
                require={"networks": 100, "checked_kcl": 1000, "checked_ideal": 100, "with_charging": 50}),
}
SPECS["C03"] = dict(quick=2000, thorough=40000, warm=BOTH, level="exploration",
                    rule="distinct (kind, start, iteration limit, decade of tolerance, verdict, stressed) or raised messages",
                    require={"solves": 500, "reported_successful": 200, "reported_unsuccessful": 200, "beyond": 100})
SPECS["C04"] = dict(quick=900, thorough=16000, warm=BOTH, level="exploration",
                    rule="distinct (revision, machine roles, bus count) and feeder features whose reports were checked",
                    require={"checked_pv": 100, "checked_slack": 100, "checked_swing": 100, "checked_load": 500, "checked_winding": 50})
SPECS["C05"] = dict(quick=360, thorough=12000, warm=BOTH, level="exploration",
                    rule="distinct (kind, mode, homotopy, element features) of the networks whose linear systems were observed",
                    require={"linear_systems": 2000, "rows_checked": 20000, "phase_tx": 20, "symmetry_checked": 50, "residual_compared": 50, "zero_points": 100})
SPECS["C06"] = dict(quick=26, thorough=400, warm=[], level="fault_enumeration", limit=400,
                    rule="distinct (fault kind, damage set, files left, number of processes) the cache was put through",
                    require={"cold_runs": 8, "runs_warm": 2, "runs_damaged": 4, "runs_concurrent": 6, "runs_killed": 2,
                             "runs_unwritable": 2, "runs_full": 3})
SPECS["C07"] = dict(quick=400, thorough=6000, warm=BOTH, level="fault_enumeration",
                    rule="distinct (scenario, kind, verdict, fraction reached, element features)",
                    require={"direct_pairs": 50, "homotopy_successes": 30, "homotopy_failures": 20, "step_failures": 15})
SPECS["C08"] = dict(quick=480, thorough=6000, warm=BOTH, level="exploration",
                    rule="distinct (device scenario, controls on either side of their limits, device counts)",
                    require={"fuse_held": 15, "fuse_over": 15, "control_off": 15, "volt_solves": 40, "above_band": 8,
                             "below_band": 15, "inside_pairs": 8, "unsupported_modes": 10, "regulator_phases": 20})
SPECS["C09"] = dict(quick=1600, thorough=30000, warm=BOTH, level="exploration",
                    rule="distinct (kind of cut or voltage shift, number of islands, element context)",
                    require={"raw_one": 100, "raw_split": 80, "glm_one": 50, "glm_split": 50, "mixed_regions": 40, "uniform_regions": 60})
SPECS["C10"] = dict(quick=800, thorough=20000, warm=["gen"], level="exploration",
                    rule="distinct (rewriting, revisions, writer options, element kinds, outcome)",
                    require={"pairs": 800, "solved_bases": 200, "pairs:revision": 60, "pairs:offline": 60, "pairs:order": 60, "pairs:blank": 60})
SPECS["C11"] = dict(quick=400, thorough=8000, warm=BOTH, level="exploration",
                    rule="distinct (rewriting x modelling feature of the feeder)",
                    require={"pairs": 400, "solved_bases": 150, "pairs:respelled": 40, "pairs:element_order": 40, "pairs:property_order": 40})
SPECS["C12"] = dict(quick=800, thorough=16000, warm=BOTH, level="exploration",
                    rule="distinct (transformation, network features)",
                    require={"pairs": 600, "raw_reverse": 80, "raw_split": 80, "glm_relabel": 60, "glm_halve": 60, "glm_turn": 60})
SPECS["C13"] = dict(quick=200, thorough=4000, warm=["glm"], level="exploration",
                    rule="distinct (hour position, zero/negative values, verdict, residential loads, offset start, output files)",
                    require={"series": 100, "hours": 300, "solved_hours": 200, "file_series": 20})
SPECS["C14"] = dict(quick=260, thorough=4000, warm=["gen", "glm"], level="exploration",
                    rule="distinct combinations of command line options per kind of network",
                    require={"runs": 150, "successes_written": 100, "option:loadfile": 20, "option:load_factor": 40, "option:tx_stepping": 10})
SPECS["C15"] = dict(quick=500, thorough=10000, warm=["gen", "glm"], level="exploration",
                    rule="distinct (kind of network, infeasibility mode, path style, verdict)",
                    require={"outputs": 300, "failures": 40, "successes": 150, "voltage_rows": 1000, "power_rows": 500})
SPECS["C16"] = dict(quick=240, thorough=4000, warm=["gen", "glm"], level="exploration",
                    rule="distinct (kind, stressed, plainly solvable, voltage limiting, roles or features)",
                    require={"feasible_raw": 10, "infeasible_raw": 15, "feasible_glm": 20, "balanced_buses": 100})
SPECS["C17"] = dict(quick=400, thorough=8000, warm=["glm"], level="exploration",
                    rule="distinct (island selected, hours, generators, where they are, load size, transformer connections)",
                    require={"networks": 200, "settled": 150})
SPECS["C18"] = dict(quick=800, thorough=20000, warm=["glm"], level="exploration",
                    rule="distinct (kind of cut, how it is cut, part kept, element kinds in the part kept)",
                    require={"selections": 400, "nontrivial": 250})
SPECS["C19"] = dict(quick=2000, thorough=40000, warm=["glm"], level="exploration",
                    rule="distinct (reasons for a mark, kind of run, element kinds)",
                    require={"networks": 1000, "beyond:centre tap": 5, "beyond:transformer": 20, "beyond:voltage": 100, "within": 500})
SPECS["C20"] = dict(quick=180, thorough=6000, warm=BOTH, level="exploration",
                    rule="distinct (kind, infeasibility, operation, how many times, networks before, features, settings)",
                    require={"schedules": 100, "solved": 200, "repeats": 30, "schedules:hashed": 15, "compared:series": 10})
SPECS["C21"] = dict(quick=440, thorough=16000, warm=BOTH, level="exploration",
                    rule="distinct (kind, infeasibility, verdict, options varied, features)",
                    require={"networks": 300, "dumps": 50, "same:debug": 150, "same:more-iterations": 100, "fewer": 50, "looser": 50,
                             "close:flat": 20, "same:limiting-inactive": 30})
