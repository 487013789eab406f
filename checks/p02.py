"""P02: a rejected line changes no meter; an accepted line updates exactly one."""
from dline import *

EXPLANATION = (
    "Every path of both line parsers is interpreted abstractly over an arbitrary line and its effects on meters are recorded (lookups in the registry and "
    "in the percentile caches, and updates). Paths that report an error must have none; paths that report none must look up one meter and update that one "
    "once, and the decisions taken on them must show that the line has the parts its type needs.")
ASSUMPTIONS = ["strtod, strtoll, strchr and string_view searches by their documented contracts"]
RULES = {
    "none": "a line reported as an error has looked up and updated no meter",
    "one": "a line not reported as an error has updated exactly one meter, the one looked up for it (statsd sets: none)",
    "wellformed": "a line is accepted only if its separators, name, number, type and the positive number its type needs are there",
    "rate": "a statsd line is accepted only with a sampling rate greater than 0 and at most 1, or none",
}


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    n = 0
    for name, cls in (('parse', SLine), ('parse_statsd', DLine)):
        fns = parser_of(ctx, name)
        ctx.anchor("line parsers of " + name, len(fns))
        if not fns:
            ctx.und("one", "spectatord::Server::" + name, "no line parser found")
        for fn in fns:
            n += cls(ctx, fn, RULES).run()
    ctx.need("paths of the line parsers", n, 4)
