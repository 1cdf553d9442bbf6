"""P14: every request gets exactly one reply, and both sides stay in step."""
from ..core import *
from .. import exch

def check(prog, rep, tier):
    rep.rule('P14', 'every operation of the client is followed against the server with every answer of the repository and with a failure at each step of the server: neither side waits for what the other does not send, '
             'the request that follows finds nothing left over and is understood, the connection is not left in use, and no operation completes when the server failed')
    prog.add_harness(exch.HARNESS)
    res = exch.outcomes(prog, rep, with_failures=True)
    exch.report(prog, rep, 'P14', res, ('parse','wait','step','busy','silent','none'))
    rep.need('operations_followed', 25); rep.need('failures_followed', 25); rep.need('completed_exchanges', 50)
