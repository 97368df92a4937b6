"""Pipeline context: the last stored value per key, nothing else."""
from .common import *

ASSUMPTIONS = []
BOUNDS_TEXT = ('all histories of up to 3 (single keys: 4) operations (store, read, presence test, removal, copy) over every pair of the 12 predefined keys and two custom keys with '
               'symbolic names (equal or not) and values that may be absent (None) or look empty, on a context and a copy of it'
               '; all predefined and 14 custom keys at once through a chain of copies, with one arbitrary operation')

KEYS = [('log', 'with_log', 'log'), ('activities', 'with_activities', 'activities'), ('repeat_sets', 'with_repeat_sets', 'repeat_sets'),
        ('traces_activities', 'with_trace_activities', 'traces_activities'), ('patterns', 'with_patterns', 'patterns'),
        ('petri_net', 'with_petri_net', 'petri_net'), ('event_class_tree', 'with_event_class_tree', 'event_class_tree'),
        ('activities_to_logs', 'with_activities_logs', 'activities_to_logs'), ('serialized_graph', 'with_serialized_graph', 'serialized_graph'),
        ('graph', 'with_graph', 'graph'), ('activity_name', 'with_activity_name', 'activity_name'), ('cached_colors', 'with_cached_colors', 'cached_colors')]


def setup(symbolic):
    import ficus.legacy.pipelines.contexts.accessors


def configs(tier):
    t = tier == 'thorough'
    out = []
    n = len(KEYS)
    for i in range(n):
        for j in range(n):
            if i < j:
                out.append({'name': 'k%d-%d' % (i, j), 'keys': [i, j], 'steps': 4 if t else 3, 'custom': 0})
        out.append({'name': 'c%d' % i, 'keys': [i], 'steps': 4 if t else 3, 'custom': 1})
        out.append({'name': 'one%d' % i, 'keys': [i], 'steps': 4, 'custom': 0})
        out.append({'name': 'val%d' % i, 'keys': [i], 'steps': 4 if t else 3, 'custom': 0, 'values': 1})
    out.append({'name': 'custom2', 'keys': [], 'steps': 4, 'custom': 2})
    out.append({'name': 'customval', 'keys': [], 'steps': 4 if t else 3, 'custom': 1, 'values': 1})
    out.append({'name': 'all', 'all': 1})
    out.append({'name': 'many', 'many': 1})
    return out


class V:
    """an opaque value"""

    def __init__(self, n):
        self.n = n


class Empty(V):
    """a value that looks empty and false"""

    def __len__(self):
        return 0

    def __eq__(self, other):
        return isinstance(other, Empty)

    __hash__ = None


def keyname(i):
    from ficus.legacy.pipelines.contexts import keys
    return getattr(keys, KEYS[i][0] + '_key')


def read(r, i):
    from ficus.legacy.pipelines.contexts import accessors
    return getattr(accessors, KEYS[i][2])(r)


def check_state(ctx, r, model, keys, custom, names):
    for i in keys:
        k = keyname(i)
        ctx.check(bool(r.has_value(k)) == (i in model), 'presence of a key is reported wrongly: ' + KEYS[i][0])
        if KEYS[i][0] == 'cached_colors' and i not in model:
            continue
        try:
            v = read(r, i)
            w = r.get_value_or_throw(k)
        except Exception:
            ctx.check(i not in model, 'a stored key cannot be read: ' + KEYS[i][0])
            continue
        ctx.check(i in model, 'an absent key can be read: ' + KEYS[i][0])
        ctx.check(v is model[i] and w is model[i], 'reading a key returns something else than the value stored last: ' + KEYS[i][0])
    for k in range(custom):
        key = ('c', names[k])
        ctx.check(bool(r.has_value(names_obj[k])) == (key in model), 'presence of a custom key is reported wrongly')
        if key in model:
            ctx.check(r.get_value_or_throw(names_obj[k]) is model[key], 'a custom key does not hold the value stored last')
        else:
            try:
                r.get_value_or_throw(names_obj[k])
            except Exception:
                continue
            ctx.fail('an absent custom key can be read')


names_obj = []


def many(ctx, R, copy):
    """every predefined key and many custom ones at once, through a chain of copies"""
    n = 14
    names_obj[:] = [ctx.name('key%d' % i) if i < 2 else ctx.const('custom%d' % i) for i in range(n)]
    names = ctx.classes(names_obj)
    r, model = R(), {}
    objs = []
    for i in range(n):
        if i < len(KEYS):
            v = (V, Empty)[i % 2](i)
            getattr(r, KEYS[i][1])(v)
            model[i] = v
        v = (Empty, V)[i % 2](100 + i)
        r.with_custom_data(names_obj[i], v)
        model[('c', names[i])] = v
        if i % 3 == 2:
            objs.append((r, dict(model)))
            r = copy.copy(r)
    objs.append((r, model))
    o = ctx.index('obj', len(objs))
    q, m = objs[o]
    k = ctx.index('slot', len(KEYS) + 4)
    key = k if k < len(KEYS) else ('c', names[k - len(KEYS)])
    if key in m and ctx.bool('remove'):
        q.remove(keyname(k) if k < len(KEYS) else names_obj[k - len(KEYS)])
        del m[key]
    else:
        m[key] = V(500)
        if k < len(KEYS):
            getattr(q, KEYS[k][1])(m[key])
        else:
            q.with_custom_data(names_obj[k - len(KEYS)], m[key])
    for q, m in objs:
        check_state(ctx, q, m, range(len(KEYS)), n, names)


def harness(ctx, cfg):
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    import copy
    if 'all' in cfg:
        r = PipelinePartResult()
        vals = []
        perm = ctx.index('first', len(KEYS))
        order = list(range(perm, len(KEYS))) + list(range(perm))
        model = {}
        for i in order:
            v = V(i)
            x = getattr(r, KEYS[i][1])(v)
            ctx.check(x is r, 'storing must return the context')
            model[i] = v
            check_state(ctx, r, model, range(len(KEYS)), 0, [])
        c = copy.copy(r)
        check_state(ctx, c, model, range(len(KEYS)), 0, [])
        for i in order:
            c.remove(keyname(i))
        check_state(ctx, r, model, range(len(KEYS)), 0, [])
        check_state(ctx, c, {}, range(len(KEYS)), 0, [])
        return
    if 'many' in cfg:
        return many(ctx, PipelinePartResult, copy)
    keys = cfg['keys']
    custom = cfg['custom']
    names_obj[:] = [ctx.name('key%d' % i) for i in range(custom)]
    names = ctx.classes(names_obj)
    slots = [(i, None) for i in keys] + [(None, k) for k in range(custom)]
    kinds = [V, Empty, lambda _: None] if cfg.get('values') else [V]
    rot = ctx.index('kinds', 3) if cfg.get('values') else 0
    objs = [PipelinePartResult()]
    models = [{}]
    for s in range(cfg['steps']):
        o = ctx.index('obj%d_%d' % (s, len(objs)), len(objs))
        r, m = objs[o], models[o]
        op = ctx.index('op%d' % s, 4)
        if op == 3:
            if len(objs) < 3:
                c = copy.copy(r)
                ctx.check(c is not r, 'the copy is the context itself')
                objs.append(c)
                models.append(dict(m))
            continue
        i, k = slots[ctx.index('slot%d' % s, len(slots))]
        mk = i if i is not None else ('c', names[k])
        if op == 0:
            v = kinds[(rot + s) % len(kinds)](s)
            x = getattr(r, KEYS[i][1])(v) if i is not None else r.with_custom_data(names_obj[k], v)
            ctx.check(x is r, 'storing must return the context')
            m[mk] = v
        elif op == 1:
            if mk in m:
                r.remove(keyname(i) if i is not None else names_obj[k])
                del m[mk]
        elif i is not None and KEYS[i][0] == 'cached_colors' and i not in m:
            d = read(r, i)
            ctx.check(isinstance(d, dict) and not d, 'without stored colours an empty map is expected')
            ctx.check(read(r, i) is d, 'the map of colours must stay the same')
            m[i] = d
        for q, n in zip(objs, models):
            check_state(ctx, q, n, keys, custom, names)
    for q, n in zip(objs, models):
        check_state(ctx, q, n, keys, custom, names)
