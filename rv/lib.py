"""Access to the code under test (imported from /repo's working tree) by public names."""

import contextlib
import importlib
import json
import logging
import os
import sys
import warnings

warnings.simplefilter("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

from rv.spec import CATALOG  # noqa: E402

import asyncapi3  # noqa: E402

assert os.path.realpath(asyncapi3.__file__).startswith(os.path.realpath(REPO) + os.sep), asyncapi3.__file__
from pydantic import ValidationError  # noqa: E402

from asyncapi3.models.asyncapi import AsyncAPI3  # noqa: E402
from asyncapi3.models.base import Reference  # noqa: E402
from asyncapi3.validators import (  # noqa: E402
    ExternalDocsRefValidator,
    TagsRefValidator,
    UnifiedReferencesValidator,
)
from asyncapi3.validators.utils import resolve_reference  # noqa: E402

_classes = {}
_names = {}


def cls(name):
    if name == "Reference":
        return Reference
    if name not in _classes:
        c = CATALOG[name]
        _classes[name] = getattr(importlib.import_module(c["module"]), c["class"])
    return _classes[name]


def name_of(kind):
    """The catalog name of a model class, found by identity (wherever the class is defined)."""
    if not _names:
        _names.update((cls(n), n) for n in CATALOG)
    return _names.get(kind)


def attempt(fn, *a, **kw):
    """Run a library call; ('ok', value) | ('invalid', exc) | ('crash', exc)."""
    try:
        return "ok", fn(*a, **kw)
    except ValidationError as e:
        # Errors raised inside validators keep frames alive, and through them this very error: that
        # cycle runs through pydantic's compiled part, where the collector cannot see it.
        with contextlib.suppress(Exception):
            for d in e.errors(include_url=False, include_input=False):
                inner = (d.get("ctx") or {}).get("error")
                if isinstance(inner, BaseException):
                    inner.__traceback__ = inner.__context__ = inner.__cause__ = None
        return "invalid", e
    except Exception as e:  # noqa: BLE001
        return "crash", e


def dump(m):
    return m.model_dump(mode="json")


def dumps(m):
    return m.model_dump_json()


LOG_SETTINGS = ["disabled", "library-critical", "library-off", "debug", "root-critical", "unhandled"]


@contextlib.contextmanager
def log_setting(how):
    """Another configuration of logging, of no consequence for any decision."""
    loggers = [logging.getLogger(n) for n in list(logging.root.manager.loggerDict) if n.split(".")[0] == "asyncapi3"]
    root = logging.getLogger()
    old, handlers, level, last = [(g, g.level, g.disabled, g.propagate) for g in loggers], list(root.handlers), root.level, logging.lastResort
    try:
        logging.lastResort = None
        if how == "disabled":
            logging.disable(logging.CRITICAL)
        elif how == "root-critical":
            root.setLevel(logging.CRITICAL)
        elif how == "unhandled":
            root.handlers[:] = []
        elif how == "debug":
            root.handlers[:] = [logging.NullHandler()]
            root.setLevel(logging.DEBUG)
        for g in loggers:
            if how == "library-critical":
                g.setLevel(logging.CRITICAL + 1)
            elif how == "library-off":
                g.disabled = True
            elif how == "debug":
                g.setLevel(logging.DEBUG)
        yield
    finally:
        logging.disable(logging.NOTSET)
        logging.lastResort = last
        root.handlers[:] = handlers
        root.setLevel(level)
        for g, lv, off, prop in old:
            g.setLevel(lv)
            g.disabled, g.propagate = off, prop


class LogTap(logging.Handler):
    """Records every log record emitted by the library while active."""

    def __init__(self):
        super().__init__(level=logging.DEBUG)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelno, record.getMessage()))

    def __enter__(self):
        root = logging.getLogger()
        self.old = root.level
        self.old_handlers = list(root.handlers)
        root.handlers[:] = [self]
        root.setLevel(logging.INFO)
        return self

    def __exit__(self, *exc):
        root = logging.getLogger()
        root.handlers[:] = self.old_handlers
        root.setLevel(self.old)

    def warnings(self):
        return [m for lv, m in self.records if lv >= logging.WARNING]


def quiet():
    logging.getLogger().handlers[:] = [logging.NullHandler()]
    logging.getLogger().setLevel(logging.CRITICAL)


quiet()


def jcopy(x):
    return json.loads(json.dumps(x))


class Noop:
    """A processor that does nothing."""

    def __call__(self, spec):
        return spec
