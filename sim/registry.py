"""All properties by id."""


def table():
    from . import addon, demo, genscripts, orders, osm, proc, props

    return {c.pid: c for c in props.LIB + (orders.C06, orders.C16, orders.C21, proc.C14, demo.C10, addon.C11, osm.C12, genscripts.C13)}


def get(pid):
    return table()[pid]()
