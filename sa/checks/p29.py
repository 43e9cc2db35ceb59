"""P29 Every REST endpoint can answer what it promises."""
TECHNIQUE = "signature, route-order and declared-type comparison over all endpoints, the element and scenario contracts and the internal calls of the application"
NOTE = "Types are compared by the model classes they name; fields the response model filters out are not examined."
from .rest import analyse


def check(ck): analyse(ck, "P29")
