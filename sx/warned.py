"""Listening to the library's log: the same interface for the encoding and for the real library (plain Python, not instrumented)."""

import logging

SYMBOLIC = False  # set by sx.run: log calls are then recorded by the instrumentation
SINK = None
LEVELS = {"debug": 10, "info": 20, "warning": 30, "warn": 30, "error": 40, "exception": 40, "critical": 50, "fatal": 50}


class _Handler(logging.Handler):
    def emit(self, record):
        if SINK is not None and record.levelno >= 30 and record.name.split(".")[0] in ("root", "asyncapi3"):
            SINK.append([record.levelno, [record.getMessage()]])


_handler = _Handler()


def start():
    """From here on, log records of at least warning level are collected; returns the list [[level, [texts]]]."""
    global SINK
    SINK = []
    if not SYMBOLIC:
        logging.disable(logging.NOTSET)
        logging.getLogger().handlers[:] = [_handler]
    return SINK


def stop():
    global SINK
    SINK = None
    logging.disable(logging.CRITICAL)


def record(name, args):
    """Called by the instrumentation for a log call."""
    if SINK is None:
        return
    if name == "log":
        level, args = args[0], args[1:]
    else:
        level = LEVELS[name]
    if level >= 30:
        SINK.append([level, list(args)])
