from engine.harness import Registry
from engine.sched import Threads
from satella.coding.structures import SyncableDroppable, DBStorage

R = Registry('C10', assumptions=['keys are mathematical integers; the storage is a faithful ordered '
                                 'store whose iterators are snapshots'])


class Storage(DBStorage):
    def __init__(self, S):
        self.S = S
        self.data = []
        self.open = 0
        self.start = self.stop = self.synced = 'never'

    def put(self, key, value):
        for k, _ in self.data:
            self.S.check(S_ne(self.S, k, key), 'an item is stored once')
        if self.data:
            self.S.check(key > self.data[-1][0], 'items are stored in order')
        self.data.append((key, value))

    def iterate(self, starting_key):
        snapshot = [p for p in self.data if starting_key is None or p[0] >= starting_key]
        return It(self, snapshot)

    def on_change_start_entry(self, start_entry):
        self.start = start_entry

    def on_change_stop_entry(self, stop_entry):
        self.stop = stop_entry

    def on_change_synced_up_to(self, synced_up_to):
        self.synced = synced_up_to

    def delete(self, key):
        for i, (k, _) in enumerate(self.data):
            if k == key:
                del self.data[i]
                return
        self.S.fail('deletion of a missing item')


def S_ne(S, a, b):
    return S.Not(S.eq(a, b))


class It:
    def __init__(self, st, data):
        self.it = iter(data)
        self.st = st
        st.open += 1
        self.closed = False

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def close(self):
        if not self.closed:
            self.closed = True
            self.st.open -= 1


@R.harness(quick=[dict(db=1, n=1, k=3), dict(db=2, n=1, k=1), dict(db=0, n=0, k=3), dict(db=0, n=3, k=2)],
           thorough=[dict(db=1, n=1, k=4), dict(db=2, n=2, k=3), dict(db=0, n=3, k=3), dict(db=0, n=0, k=4)],
           labels=['new', 'refused', 'cleanup_mem', 'cleanup_db', 'sync_to_db', 'archive', 'sync',
                   'nothing_to_sync', 'synced', 'latest', 'no_latest', 'dropped', 'sync_from_db',
                   'limited'],
           bounds='db entries already stored, n entries in memory, k operations of any kind; arbitrary '
                  'keys and spans')
def history(S, db, n, k):
    st = Storage(S)
    span_mem, span_db = S.int('span_mem', 1), S.int('span_db')
    S.assume(span_db > span_mem)
    model = []
    prev = None
    for i in range(db):
        key = S.key('db%d' % i)
        if prev is not None:
            S.assume(key > prev)
        prev = key
        model.append((key, 'db%d' % i))
    st.data = list(model)
    start, stop = (model[0][0], model[-1][0]) if model else (None, None)
    synced = None
    if db and S.flag('presynced'):
        synced = model[S.choice('psync', db)][0]
    st.start, st.stop, st.synced = start, stop, synced
    sd = SyncableDroppable(st, start, stop, synced, span_mem, span_db)
    for i in range(n):
        key = S.key('mem%d' % i)
        if stop is not None:
            S.assume(key > stop)
        sd.on_new_data(key, 'mem%d' % i)
        model.append((key, 'mem%d' % i))
        stop = key
        if start is None:
            start = key

    for i in range(k):
        op = S.pick('op', ['new', 'cleanup_mem', 'cleanup_db', 'sync_to_db', 'archive', 'sync', 'synced',
                           'latest'])
        if op == 'new':
            key = S.key('k')
            r, _ = S.raises(ValueError, sd.on_new_data, key, 'n%d' % i)
            if stop is not None and key <= stop:
                S.check(r, 'keys must grow')
                S.reach('refused')
            else:
                S.check(not r)
                model.append((key, 'n%d' % i))
                stop = key
                if start is None:
                    start = key
                S.reach('new')
        elif op == 'cleanup_mem':
            before = len(st.data)
            sd.cleanup_keep_in_memory()
            if model:
                cutoff = stop - span_mem
                f = sd.first_key_in_memory
                S.check(f is None or f > cutoff, 'old items leave the memory')
                S.check(S.And(True, *[p[0] <= cutoff for p in st.data[before:]]),
                        'recent items stay in memory')
            S.reach('cleanup_mem')
        elif op == 'cleanup_db':
            sd.cleanup_keep_in_db()
            if model:
                cutoff = stop - span_db
                kept = [p for p in model if p[0] >= cutoff]
                if len(kept) < len(model):
                    S.reach('dropped')
                model = kept
                start = model[0][0]
            S.reach('cleanup_db')
        elif op == 'sync_to_db':
            sd.sync_to_db()
            S.check(sd.first_key_in_memory is None)
            S.check_eq(st.data, model, 'everything is stored')
            S.reach('sync_to_db')
        elif op == 'archive':
            a, b = S.key('from'), S.key('to')
            out = list(sd.get_archive(a, b))
            S.check_eq(out, [p for p in model if p[0] >= a and p[0] <= b], 'archive')
            S.reach('archive')
        elif op == 'sync':
            left = [p for p in model if synced is None or p[0] > synced]
            mx = S.pick('max', [None, 1, 2])
            r, out = S.raises(ValueError, lambda: list(sd.on_sync_request(mx)) if mx is not None
                              else list(sd.on_sync_request()))
            S.check(r == (not left), 'ValueError iff there is nothing to synchronize')
            if not left:
                S.reach('nothing_to_sync')
            else:
                S.reach('sync')
                if st.data and synced is not None:
                    S.reach('sync_from_db')
                if mx is not None and len(left) > mx:
                    S.reach('limited')
                S.check_eq(out, left if mx is None else left[:mx], 'unsynchronized entries, in order')
        elif op == 'synced':
            if not model:
                continue
            synced = model[S.choice('which', len(model))][0]
            sd.on_synced_up_to(synced)
            S.check_eq(st.synced, synced, 'storage is notified')
            S.reach('synced')
        else:
            r, out = S.raises(ValueError, sd.get_latest_value)
            S.check(r == (not model), 'ValueError iff empty')
            if model:
                S.check_eq(out, model[-1], 'latest value')
                S.reach('latest')
            else:
                S.reach('no_latest')
        S.check(st.open == 0, 'iterators are closed')
    # nothing is lost, nothing is both in memory and stored
    first = sd.first_key_in_memory
    ndb = len(st.data)
    S.check_eq(st.data, model[:ndb], 'stored entries')
    S.check((first is None) == (ndb == len(model)), 'the rest is in memory')
    if first is not None:
        S.check_eq(first, model[ndb][0], 'first in memory')
    if model:
        S.check_eq(list(sd.get_archive(model[0][0], model[-1][0])), model, 'all entries')
        S.check_eq(sd.start_entry, start, 'start entry')
        S.check_eq(sd.stop_entry, stop, 'stop entry')
        S.check_eq(st.start, start, 'storage knows the start entry')
        S.check_eq(st.stop, stop, 'storage knows the stop entry')
    else:
        S.check(sd.start_entry is None and sd.stop_entry is None)
        S.check(st.start is None and st.stop is None, 'storage knows that it is empty')
    S.check_eq(sd.synced_up_to, synced, 'synced up to')
    S.check_eq(st.synced, synced, 'storage knows what has been synced')


FOCUS = ['coding/structures/syncable']


def prepared(S, sc_started_inside=True):
    st = Storage(S)
    in_db = S.choice('in_db', 2)
    sd = SyncableDroppable(st, None, None, None, S.pick('span', [1, 3]), 50)
    model = []
    for i in range(in_db):
        sd.on_new_data(1 + i, 'd%d' % i)
        model.append((1 + i, 'd%d' % i))
    sd.sync_to_db()
    for i in range(2):
        sd.on_new_data(5 + 2 * i, 'm%d' % i)
        model.append((5 + 2 * i, 'm%d' % i))
    return st, sd, model


MAINTENANCE = ['sync_to_db', 'cleanup_keep_in_memory', 'cleanup_keep_in_db']


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=3)], labels=['done'],
           bounds='a thread adding two entries while another one moves entries to the storage')
def adding_during_maintenance(S, switches):
    with Threads(S, switches, focus=FOCUS) as sc:
        st, sd, model = prepared(S)
        new = [(9, 'a'), (11, 'b')]

        def writer():
            for k, v in new:
                sd.on_new_data(k, v)

        op = S.pick('op', MAINTENANCE)
        rs = sc.run(writer, getattr(sd, op))
        S.check(rs == [('ok', None)] * 2, lambda: repr(rs))
        S.check(list(sd.get_archive(0, 99)) == model + new, lambda: 'entries are lost or duplicated: %r' %
                (list(sd.get_archive(0, 99)),))
        sd.sync_to_db()
        S.check(st.data == model + new, lambda: 'everything is stored: %r' % (st.data,))
        S.reach('done')


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=3)], labels=['archive', 'sync', 'latest'],
           bounds='a thread reading (incrementally) while another one moves entries to the storage')
def reading_during_maintenance(S, switches):
    with Threads(S, switches, focus=FOCUS) as sc:
        st, sd, model = prepared(S)
        what = S.pick('what', ['archive', 'sync', 'latest'])
        if what == 'sync' and S.flag('presynced'):
            sd.on_synced_up_to(model[0][0])
            model = model[1:]

        def reader():
            out = []
            if what == 'latest':
                return [sd.get_latest_value()]
            for p in (sd.get_archive(0, 99) if what == 'archive' else sd.on_sync_request()):
                out.append(p)
                sc.sleep(1)
            return out

        op = S.pick('op', MAINTENANCE)

        def maintain():
            sc.sleep(S.choice('when', 3))
            getattr(sd, op)()

        rs = sc.run(reader, maintain)
        S.check(rs[1] == ('ok', None), lambda: repr(rs))
        got = sc.value(rs[0])
        want = model[-1:] if what == 'latest' else model
        S.check(got == want, lambda: '%s read during %s: %r instead of %r' % (what, op, got, want))
        S.reach(what)
