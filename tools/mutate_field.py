#!/usr/bin/env python3
"""Measures what C15 and C19 detect: carry mistakes are put into the field routines, one at a
time, through an overlay (nothing in /repo changes), and the conformance part of the check is
run on each.  mutate_field.py FIELD asm|go [--sample N] [--lanes L]"""
import argparse, re, sys, random, os, json
os.environ.setdefault('VERIF_SEED', '1')
import plans, vlib, overlay_field
from plan_field import *

ap = argparse.ArgumentParser()
ap.add_argument('field')
ap.add_argument('kind')
ap.add_argument('--sample', type=int, default=0)
ap.add_argument('--lanes', type=int, default=60)
ap.add_argument('--only', default='')
a = ap.parse_args()
FILES = {('p511', 'asm'): ['dh/csidh/fp511_amd64.s'], ('p511', 'go'): ['dh/csidh/fp511_generic.go', 'dh/csidh/fp511.go']}
for f in ('p434', 'p503', 'p751'):
    FILES[f, 'asm'] = ['dh/sidh/internal/%s/arith_amd64.s' % f]
    FILES[f, 'go'] = ['dh/sidh/internal/%s/arith_generic.go' % f]


def mutants(path):
    ls = open(os.path.join(vlib.REPO, path)).read().split('\n')
    r = []
    for i, l in enumerate(ls):
        c = l.split('//')[0]
        if path.endswith('.s'):
            for m in re.finditer(r'\b(ADCQ|SBBQ|ADCXQ|ADOXQ|ADDQ|SUBQ)\b([^;\\]*)', c):
                n, rest = m.group(1), m.group(2)
                if '$' in rest and 'SP' in rest:
                    continue
                if n in ('ADCQ', 'SBBQ'):
                    new = 'NOP' if re.match(r'\s*\$0\s*,', rest) else {'ADCQ': 'ADDQ', 'SBBQ': 'SUBQ'}[n] + rest
                elif n in ('ADCXQ', 'ADOXQ'):
                    new = 'NOP'
                else:
                    continue
                r.append((i, m.group(0).strip(), l[:m.start()] + new + l[m.end():]))
        else:
            for m in re.finditer(r', (c|carry|borrow)\)', c):
                r.append((i, 'carry in dropped', l[:m.start()] + ', 0)' + l[m.end():]))
            if re.match(r'\s*t \+= carry|\s*r\[8\] \+= c|\s*c = h \+ c', c):
                r.append((i, 'carry not added', re.sub(r'c = h \+ c', 'c = h', l) if 'h + c' in l else '_ = ' + re.sub(r'.*\+= ', '', c)))
    return ls, r


ctx = vlib.Ctx('MUT')
kind = 'csidh' if a.field == 'p511' else 'sidh'
ones = ctx.gen_bfs(FG, one_cfg(kind, COPS if kind == 'csidh' else SOPS), 'one')
progs = ctx.gen_sim(FG, prog_cfg(kind, COPS if kind == 'csidh' else SOPS, 24), 12, 24, 'programs')
ctx.ov()
todo = []
for path in FILES[a.field, a.kind]:
    ls, ms = mutants(path)
    todo += [(path, ls) + m for m in ms]
random.Random(5).shuffle(todo)
if a.sample:
    todo = todo[:a.sample]
sc = []
for n, fl in (FLAGS if a.kind == 'asm' else [('', {})]):
    sc += fscr(ctx, a.field, ones, progs, a.lanes, 12, fl)
surv = []
vlib.Ctx.reproduce = lambda *x, **k: None
for path, ls, i, what, new in todo:
    if a.only and a.only != str(i + 1):
        continue
    text = '\n'.join(ls[:i] + [new] + ls[i + 1:])
    vlib.OVERLAYS['field'] = lambda: dict(overlay_field.files(), **{path: text})
    try:
        d = driver_for(ctx, 'field' if a.kind == 'asm' else 'field-gen')
    except vlib.Broken as e:
        print('unbuildable', i + 1, what, str(e)[-200:])
        continue
    try:
        ok = ctx.conform('m', d, sc, 'field/FieldTrace.tla', FCFG, {'frame'}, cost=fcost)
    except vlib.Broken as e:
        ok = False
        print('  broken:', str(e)[:150])
    print('%s:%d %-30s %s' % (path, i + 1, what, 'SURVIVED' if ok else 'caught'), flush=True)
    if ok:
        surv.append((path, i + 1, what))
print(len(surv), 'of', len(todo), 'survived')
ctx.close()
