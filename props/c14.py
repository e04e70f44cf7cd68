"""C14: interchanges connect every pair of outputs to both groups of inputs."""
from props import c13

ID = 'C14'
LEVEL = 'exploration'
QUICK_RUNS, QUICK_SECONDS = 4000, 70
THOROUGH_RUNS, THOROUGH_SECONDS = 30000, 900
RULE = ('A run asks interchange for one, several or all layouts with random options, partial layout, back end and order of models; solver failures, kills, Ctrl-C, input and output errors hit some of the runs. '
        'Every printed layout is followed belt by belt from the inputs to the outputs. Layouts that are known to exist (data/witnesses.json) have to be found. Non-trivial: at least one layout, or a fault; distinct by event log (contains every model).')
RUN_LIMIT, SLOW_OK = 20, True      # how long a solver takes is not judged
REAL = ['factorio_sat.interchange (whole main)', 'factorio_sat.solver/template/optimisations/cardinality/util', 'factorio_sat.blueprint', 'factorio_sat.ipasir', 'SAT engine']
STUB = c13.STUB
ASSUMPTIONS = ['a layout is identified by its tiles']
MODULES = ['interchange']


def prepare():
    c13.load(MODULES)


def run(world):
    c13.run(world)
