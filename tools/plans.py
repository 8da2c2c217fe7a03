"""One plan per property: which models are checked, which histories are generated,
what is driven, which trace specification judges."""
import os
from vlib import *

PLANS = {}
NORMS = {}       # property -> what of an event is compared (default: all)


def plan(pid):
    def d(f):
        PLANS[pid] = f
        return f
    return d


# packages whose statements are counted
COVERED = 'github.com/henrydcase/nobs/dh/sidh/...,github.com/henrydcase/nobs/hash/sha3'

# drivers: name in replay files -> (command, tags, race)
DRIVERS = {
    'hash': ('hash', '', False), 'hash-noasm': ('hash', 'noasm', False),
    'hash-appengine': ('hash', 'appengine', False),
    'sidh': ('sidh', '', False), 'sidh-386': ('sidh', '', False, {'GOARCH': '386'}),
    'mkem': ('mkem', '', False),
    'course': ('course', '', False, None, COVERED + ',mkem'), 'course-386': ('courseg', '', False, {'GOARCH': '386'}, COVERED),
    'drbg': ('drbg', '', False), 'aes': ('aes', '', False),
}


def driver_for(ctx, name):
    cmd, tags, race = DRIVERS[name][:3]
    env = DRIVERS[name][3] if len(DRIVERS[name]) > 3 else None
    cover = DRIVERS[name][4] if len(DRIVERS[name]) > 4 else None
    return build_driver(cmd, os.path.join(ctx.dir, name), tags, race, env, cover)


TRACE_LINES = ['SPECIFICATION Spec', 'POSTCONDITION Accepted', 'CHECK_DEADLOCK FALSE']
GEN_SIM = ['SPECIFICATION Spec', 'INVARIANT EmitAtDepth', 'CHECK_DEADLOCK FALSE']

from plan_hash import *
from plan_drbg import *
from plan_sidh import *
from plan_csidh import *
from plan_pke import *
from plan_field import *
from plan_conc import *
from plan_frame import *
from plan_cpu import *
from plan_course import *
