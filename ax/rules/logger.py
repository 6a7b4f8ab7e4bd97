"""Logging."""
from ..engine import rebuild
from ..term import T, pp
from ..equiv import calls
from .tx import specs
from .misc import all_of
L = "common_logger"
D = f"{L}::date_fixed_roller::DateFixedWindowRoller"


def files(ev):
    """The changes to the file system, in order."""
    return calls(ev, lambda e: T("call", e.name, *e.args) if e.name.startswith("std::fs::") else None)


def written(ev):
    """What is handed to the log: text, level and target."""
    def show(e):
        if "private_api" in e.name and e.name.endswith("::log"):
            a = e.args
            return T("call", "log", a[0], a[1], a[2].a[0] if a[2].op == "tuple" else a[2])
    return calls(ev, show)


def unordered(x):
    """The order in which independent parts are added to a builder does not matter."""
    def go(y):
        if y.op == "call" and y.a[0].endswith(COMMUTE) and len(y.a) == 3:
            l = []
            while y.op == "call" and y.a[0].endswith(COMMUTE) and len(y.a) == 3:
                l.append((y.a[0], unordered(y.a[2])))
                y = y.a[1]
            y = unordered(y)
            for n, v in sorted(l, key=lambda z: (z[0], pp(z[1], -60))):
                y = T("call", n, y, v)
            return y
        return None
    return rebuild(x, go)


COMMUTE = ("ConfigBuilder::appender", "ConfigBuilder::logger", "RootBuilder::appender", "LoggerBuilder::appender")


def configured(ev):
    return tuple(T("call", e.name, *(unordered(a) for a in e.args)) for e in ev if e.k == "call" and e.name.endswith("init_config"))


RULES = {"C16": all_of(
    specs(("logger::roll_file", f"?in:{D}::roll_file"),
          ("logger::roll", f"tr:log4rs::append::rolling_file::policy::compound::roll::Roll:{D}:roll"), effects=files),
    specs(("logger::build", f"in:{D}Builder::build"),
          ("logger::level", f"?fn:{L}::convert_level"),
          ("logger::trace_context", f"?fn:{L}::trace_context")),
    specs(("logger::metrics", f"fn:{L}::metrics"), ("logger::log", f"fn:{L}::log"), effects=written),
    specs(("logger::init", f"fn:{L}::init"), effects=configured))}
