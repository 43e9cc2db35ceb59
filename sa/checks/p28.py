"""P28 A REST write affects exactly the addressed object."""
TECHNIQUE = "path-wise effect analysis: the canonical changes of every path of every endpoint and storage operation are compared with the operation's contract; provenance of stored simulation results"
NOTE = "Paths with up to one iteration per loop; concurrent requests are not interleaved; the seed given to a simulation is kept in the addressed adapter (accepted)."
from .rest import analyse


def check(ck): analyse(ck, "P28")
