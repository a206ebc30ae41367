"""Registry of properties and of the checks that decide them.

A *check* is a hypothesis strategy that yields a plain-data *spec* (lists,
dicts, strings, numbers: something JSON can hold) and a function that
builds the real objects from the spec, drives lambeq and compares with an
oracle.  The spec is what is counted, sampled, shrunk and replayed, so a
saved failing spec can be re-run without the generator.
"""
from __future__ import annotations

import dataclasses
import hashlib
import json


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class Skip(Exception):
    """The reference cannot afford this case; it is not counted."""


def expect(cond, msg, sig=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, sig)


class Ctx:
    """What a check body tells the harness about the case at hand."""

    def __init__(self):
        self.labels = []
        self.is_nontrivial = False

    def label(self, name):
        self.labels.append(name)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True


@dataclasses.dataclass
class Check:
    name: str
    strategy: object            # () -> hypothesis strategy
    fn: object                  # (spec, ctx) -> None, raises Violation
    quick: int
    thorough: int
    shards: int
    rule: str
    hang: int                   # seconds one case may take
    init: object = None


@dataclasses.dataclass
class Prop:
    id: str
    checks: dict
    assumptions: list


PROPS: dict[str, Prop] = {}


def prop(pid, assumptions=()):
    return PROPS.setdefault(pid, Prop(pid, {}, list(assumptions)))


def check(pid, name, strategy, quick=300, thorough=None, shards=2,
          rule='', hang=120, init=None):
    """Register a check body.  `quick`/`thorough` count cases per run."""
    def deco(fn):
        p = prop(pid)
        assert name not in p.checks, (pid, name)
        p.checks[name] = Check(name, strategy, fn, quick,
                               thorough or quick * 20, shards, rule, hang,
                               init)
        return fn
    return deco


def spec_key(spec):
    return hashlib.sha1(json.dumps(spec, sort_keys=True, default=str)
                        .encode()).hexdigest()[:16]
