"""Which rule decides which property."""
from .engine import Missing
from .epaths import Engine
from . import rules_engine as RE
from . import rules_session as RS
from . import rules_wire as RW
from . import rules_build as RB
from . import rules_resp as RR
from . import rules_client as RC
from . import rules_req as RQ
from . import rules_server as RV
from . import rules_cli as RL
from . import rules_lib as RI
from . import rules_err as RX

ASSUME = [
    'the facts are those of the nightly compiler in this sandbox for the default features of the workspace',
    'library functions (core, alloc, std, dashmap, byteorder, async-std and the like) behave as their models in hopsa/models*.py say',
    'no value in memory is 2 GiB long or longer',
]


def on_engine(rule, want=None):
    def go(F, rep):
        rule(Engine(F, want), rep)
    return go


RULES = {}


def reg(prop, fn, doc):
    RULES[prop] = (fn, ' '.join(doc.split()))


for n in sorted(x for x in dir(RE) if len(x) == 3 and x[0] == 'C' and x[1:].isdigit()):
    reg(n, on_engine(getattr(RE, n)), getattr(RE, n).__doc__)

reg('C14', RS.C14, RS.C14.__doc__)
reg('C15', RS.C15, RS.C15.__doc__)
for mod in (RW, RB, RR, RC, RQ, RV, RL, RI, RX):
    for n in sorted(x for x in dir(mod) if len(x) == 3 and x[0] in 'BEHLMPTVW' and x[1:].isdigit()):
        reg(n, getattr(mod, n), getattr(mod, n).__doc__)
