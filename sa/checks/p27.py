"""P27 REST requests for missing or duplicate objects are refused."""
TECHNIQUE = "path-wise effect analysis of every endpoint and storage operation: each answer needs an established lookup, each refusal needs its reason and no prior change; AST rule for swallowed errors"
NOTE = "Paths with up to one iteration per loop; the storage of one process (no concurrent requests)."
from .rest import analyse


def check(ck): analyse(ck, "P27")
