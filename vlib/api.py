"""The only places where the harness touches the code under test's public API."""
import os
import sys

from vlib.common import REPO, quiet

if os.path.join(REPO, "src") not in sys.path:
    sys.path.insert(0, os.path.join(REPO, "src"))

import warnings
warnings.filterwarnings("ignore")
with quiet():
    from logic.network.networkloader import NetworkLoader
    from logic.powerflow import PowerFlow
    from logic.powerflowsettings import PowerFlowSettings
    from logic.powerflowresults import PowerFlowResults
    from models.optimization.L2infeasibility import load_infeasibility_analysis


def settings(**kw):
    return PowerFlowSettings(**kw)


def load(path, st=None):
    with quiet():
        return NetworkLoader(st or PowerFlowSettings()).from_file(path)


def solve(network, st=None):
    with quiet():
        return PowerFlow(network, st or PowerFlowSettings()).execute()


def solve_file(path, st=None, infeasibility=False):
    st = st or PowerFlowSettings()
    net = load(path, st)
    if infeasibility:
        net.optimization = load_infeasibility_analysis(net)
    return solve(net, st)


def voltages_by_bus(res):
    """RAW: bus number -> complex voltage"""
    return {b.bus.Bus: b.V for b in res.bus_results}


def voltages_by_node(res):
    """GLM: (node, phase) -> complex voltage"""
    return {(b.bus.NodeName, b.bus.NodePhase): b.V for b in res.bus_results}


def erratic(a, b, limit=20):
    """A Newton run that only settles after wandering about depends on the last bit of its start: two such runs of
    equivalent networks may end differently (one not at all, or at another solution) without anything being wrong."""
    return max((o["it"] for o in (a, b) if o["ok"]), default=0) > limit
