"""child side of C31"""


def run(conn, probes, func):
    from returnn.config import get_global_config
    from checks.c31 import _eval

    c = get_global_config()
    conn.send({"probes": _eval(c.typed_dict, probes), "func": repr(func(5)), "same": func is c.typed_dict["zz_func"]})
    conn.close()
