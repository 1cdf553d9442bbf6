"""P15: client and server agree on the encoding of every request."""
from ..core import *
from .. import exch, codec

def check(prog, rep, tier):
    rep.rule('P15', 'every operation of the client is followed against the server, each side reading exactly what the other writes, for every answer of the repository: what is read as a line, a number or so many '
             'bytes is what was written as that, nothing is left over, the arguments and values that arrive are those that were sent, and a request the server does not offer is not sent; every encoder is followed '
             'into its decoder')
    prog.add_harness(exch.HARNESS)
    res = exch.outcomes(prog, rep, with_failures=tier == 'thorough')
    exch.report(prog, rep, 'P15', res, ('parse','wait','args','values','step','none'))
    for op, msg, trail in exch.withheld(prog, rep, res):
        m = exch.method_where(prog, op)
        rep.violation('P15', m, f'{op.name}: {msg}', exch.where_of(prog, m), trail)
    reached = set().union(*(exch.requests_handled(ex) for op, f, ex, bad in res))
    rep.count('requests_reached', len(reached))
    prog2 = type(prog)()
    prog2.add_harness(codec.HARNESS)
    codec.check(prog2, rep, 'P15')
    rep.need('operations_followed', 25); rep.need('completed_exchanges', 25); rep.need('requests_withheld', 15); rep.need('requests_reached', 12)
