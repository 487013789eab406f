"""P06: each statsd line drives exactly the meter operation its type names."""
from dline import *

EXPLANATION = (
    "Every path of the statsd line parser is interpreted abstractly over an arbitrary line. For each accepting path the bytes it requires select the type; "
    "the looked-up meter, its name and tags (as pieces of the line), the operation and the symbolic value (with the sampling rate applied) are compared "
    "with the specified ones; the number of repetitions of a sampled value is derived from the counting loop; the tag loop is checked as an induction over "
    "its iterations. For each rejecting path the decisions taken must show that the line is malformed.")
ASSUMPTIONS = ["strtod, strchr and lround by their documented contracts", "meter and registry functions do what P11-P15 decide about them"]
RULES = {
    "one": "an accepted line updates exactly one meter",
    "meter": "each type looks up the meter class it names and calls that class's update operation",
    "value": "what is passed to the meter is the value on the line, with the unit and the sampling rate applied as specified",
    "times": "h and ms values are recorded round(1/rate) times",
    "rate": "a sampling rate is accepted only if it is a number greater than 0 and at most 1",
    "name": "the meter's name is the text before the first colon",
    "tags": "the meter's tags are the pieces of the tag section, each added once; a tag without a value gets 1",
    "accepts": "a line is rejected only if it is malformed",
}


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    fns = parser_of(ctx, 'parse_statsd')
    ctx.anchor("statsd line parsers", len(fns))
    if len(fns) != 1:
        ctx.und("meter", "spectatord::Server::parse_statsd", "hands lines to %d functions" % len(fns))
        return
    S = DLine(ctx, fns[0], RULES)
    n = S.run()
    ctx.need("paths of the line parser", n, 2)
    done = {T for st, fl in S.res if fl[0] == 'R' and S.isset(st, fl[1]) is False for T in S.types(st)}
    for T in DSPEC:
        ctx.check(True if T in done else None if any(hidden(st) for st, _ in S.res) else False, "accepts", S.w, "no path accepts a line of type %s" % T)
