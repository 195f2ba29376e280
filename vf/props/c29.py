"""Identities, names and copies over histories of creations, copies and dilations."""
import io
import contextlib
import numpy as np
import gen, agree, oracle
from obstacles import Frame, Obstacle, Ellipse, Polygon, StarshapedPolygon, StarshapedPrimitiveCombination
from obstacles import motion_model as mm
LEVEL = 'exploration'
CASES = {'quick': 900, 'thorough': 20000}
REQUIRED = {'new_distinct': 2500, 'temporary': 1000, 'duplicate': 800, 'explicit': 400, 'invalid': 300, 'stable': 5000, 'name': 3000, 'copy_polygon': 400, 'copy_location': 400,
            'copy_tangent': 200, 'copy_boundary': 200, 'copy_kernel': 100, 'source_polygon': 300, 'source_location': 300, 'own_type': 1500, 'counter': 3000, 'independent': 300}
RULE = ('Histories of 8-20 creations (all classes, new, temporary, existing and invalid identities, names), copies (temporary, new, duplicate, explicit identity, repeated copies of copies) and dilated copies; every '
        'identity in the registry is checked after every step; copies and sources are compared with the reference body, also after the copy got another motion model or reference point. '
        'Distinct: (class, operation, form of identity, named).')


def case(mon, rng, i, tier):
    live = []       # (obstacle, body, expected identity)
    issued = set()

    def identity(form):
        """Argument, and what the identity should be."""
        if form == 'new':
            return str(rng.choice(['new', 'n'])), 'fresh'
        if form == 'temporary':
            return str(rng.choice(['temporary', 'temp', 't'])), None
        if form == 'explicit':
            return int(rng.integers(1, Obstacle.id_counter + 1)), 'same'
        return [0, -3, Obstacle.id_counter + int(rng.integers(1, 5)), 'nonsense', 2.5][int(rng.integers(5))], None

    def judge(o, arg, form, want, before, det):
        if want == 'fresh':
            mon.ok('new_distinct', o.id() is not None and o.id() not in issued and o.id() > before, det)
            issued.add(o.id())
        elif want == 'same':
            mon.ok('explicit', o.id() == arg, det)
        else:
            mon.ok(form if form in ('temporary', 'invalid') else 'temporary', o.id() is None, det)
        mon.ok('counter', Obstacle.id_counter == before + (want == 'fresh'), det)

    for step in range(int(rng.integers(8, 21))):
        forms = ['new', 'new', 'temporary', 'invalid'] + (['explicit'] if Obstacle.id_counter else [])
        form = forms[int(rng.integers(len(forms)))]
        arg, want = identity(form)
        name = rng.choice([None, 'thing'])
        before = Obstacle.id_counter
        det = lambda **q: {'operation': op, 'identity': arg, 'name': name, 'counter_before': before, 'counter': Obstacle.id_counter, 'got': o.id(), **q}
        op = 'create'
        buf = io.StringIO()
        if not live or rng.random() < .35:
            with contextlib.redirect_stdout(buf):
                o, b = gen.obstacle(rng, id=arg)
            name = None
            judge(o, arg, form, want, before, det)
            mon.distinct(b.kind, op, form, 0)
            mon.ok('name', str(o) in (str(o.id()), 'obs'), lambda: det(name=str(o)))
        else:
            src, b, _ = live[int(rng.integers(len(live)))]
            op = str(rng.choice(['copy', 'copy', 'dilate']))
            if rng.random() < .35:
                form, arg, want = 'duplicate', str(rng.choice(['duplicate', 'd'])), 'dup'
            elif rng.random() < .2 and src.id() is not None:
                form, arg, want = 'explicit', int(src.id()), 'same'
            kw = {'id': arg}
            if rng.random() < .5:
                kw['name'] = name
            else:
                name = None
            if rng.random() < .15:
                # defaults: temporary copy, new dilated obstacle
                kw, name = {}, None
                form, arg, want = ('temporary', 'default', None) if op == 'copy' else ('new', 'default', 'fresh')
            asked = rng.random() < .5
            if asked:
                src.polygon(), src.is_convex()
                if b.xr is not None:
                    src.kernel()
            with contextlib.redirect_stdout(buf):
                o = src.copy(**kw) if op == 'copy' else src.dilated_obstacle(rng.uniform(.05, .5), **kw)
            if want == 'dup':
                mon.ok('duplicate', o.id() == src.id() and Obstacle.id_counter == before, lambda: det(source=src.id()))
            else:
                judge(o, arg, form, want, before, det)
            mon.ok('own_type', type(o) is type(src) and o is not src, lambda: det(type=str(type(o))))
            if not (want == 'dup' and type(src) is Polygon):
                mon.ok('name', str(o) == (name if name else str(o.id())), lambda: det(name=str(o), asked_name=name))
            mon.distinct(b.kind, op, form, name is not None)
            if op == 'dilate':
                with contextlib.redirect_stdout(buf):
                    pass
                live_b = None
            else:
                live_b = oracle.Body(b.shape, b.pose, b.has_mm, b.xr, b.kind, b.n_pol)
                if rng.random() < .4:
                    # the copy moves away or gets another reference point, the source must not notice
                    ps = gen.pose(rng, mode='full')[1]
                    o.set_motion_model(mm.Static(ps.pos, ps.rot))
                    live_b.pose, live_b.has_mm = ps, True
                    if b.xr is not None and rng.random() < .5:
                        if b.kind == 'E':
                            x = gen.reference(rng, b.shape)
                        else:
                            K = b.shape.kernel()
                            x = gen.reference(rng, b.shape) if len(K) > 2 else b.xr.copy()
                        o.set_xr(x.copy())
                        live_b.xr = x
                    mon.seen('independent')
                agree.compare(mon, o, live_b, rng, 'copy', n=5, extra=lambda: {'operation': op, 'queried_before': asked})
            agree.compare(mon, src, b, rng, 'source', n=3, extra=lambda: {'operation': op})
            b = live_b
        if b is not None:
            live.append((o, b, o.id()))
        else:
            issued.add(o.id())
        for q, _, idn in live:
            mon.ok('stable', q.id() == idn, lambda: det(was=idn))
