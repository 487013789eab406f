"""P01: each spectatord line type drives exactly its own meter and operation."""
from sline import *

EXPLANATION = (
    "Every path of the spectatord line parser is interpreted abstractly over an arbitrary line. For each path that accepts, the type letter the path "
    "is taken for selects the specified meter, operation and unit change; the looked-up meter's class, its name and tags (as pieces of the line), the "
    "operation called and the symbolic value passed are compared with it, and the tag loop is checked as an induction over its iterations. For each "
    "path that rejects, the decisions taken must show that the line is malformed.")
ASSUMPTIONS = ["strtod, strtoll, strtoull and string_view searches by their documented contracts", "64-bit integer products of line numbers do not overflow (values representable in nanoseconds)",
               "meter and registry functions do what P11-P15 decide about them"]
RULES = {
    "one": "an accepted line updates exactly one meter",
    "meter": "each type letter looks up the meter class it names and calls that class's update operation",
    "value": "what is passed to the meter is the number on the line, changed only by the specified unit",
    "extra": "the number after the comma is read in decimal",
    "ttl": "a positive ttl on a gauge line is set in seconds; without one no ttl is set",
    "name": "the meter's name is the text between the separator and the first comma or colon",
    "tags": "the meter's tags are the key=value pieces between the commas, each added once",
    "accepts": "a line is rejected only if it is malformed",
}


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    fns = parser_of(ctx, 'parse')
    ctx.anchor("spectatord line parsers", len(fns))
    if len(fns) != 1:
        ctx.und("meter", "spectatord::Server::parse", "hands lines to %d functions" % len(fns))
        return
    S = SLine(ctx, fns[0], RULES)
    n = S.run()
    ctx.need("paths of the line parser", n, 2)
    done = {L for st, fl in S.res if fl[0] == 'R' and S.isset(st, fl[1]) is False for L in S.letters(st)}
    for L in SPEC:
        ctx.check(True if L in done else None if any(hidden(st) for st, _ in S.res) else False, "accepts", S.w, "no path accepts a line of type %s" % L)
