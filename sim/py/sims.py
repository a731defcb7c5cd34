"""One class per property: gen(rng) -> script lines, run(ops) executes them against the real code."""
from sim_session import SessionSim
from sim_history import HistorySim
from sim_callbacks import CallbackSim
from sim_merge import MergeSim
from sim_stats import StatsSim
from sim_parallel import ParallelSim
from sim_views import ViewSim
from sim_cursor import CursorSim
from sim_build import BuildSim
from sim_query import QuerySim
from sim_watershed import WatershedSim
from sim_line import LineSim
SIMS = {"P13": SessionSim, "P14": HistorySim, "P15": CallbackSim, "P16": MergeSim, "P17": StatsSim, "P21": ParallelSim, "P22": ViewSim, "P23": CursorSim, "P24": BuildSim, "P25": QuerySim, "P26": WatershedSim, "P27": LineSim}
