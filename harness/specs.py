# One entry per property: the symbolic runs that decide it.
from check import Query
PROPS = {}
def P(pid, quick, thorough=(), bounds='', outside='', assumptions=(), note='', **kw):
    PROPS[pid] = dict(quick=list(quick), thorough=list(thorough), bounds=bounds, outside=outside, assumptions=list(assumptions), note=note, **kw)

# ---------------------------------------------------------------- buffer
def deque(n, k, pre=0, pp=0, **kw):
    return Query('deque_n%d_ops%d_pre%d_%d' % (n, k, pre, pp), 'C01_deque.cpp', ['CAP=%d' % n, 'OPS=%d' % k, 'PRE=%d' % pre, 'PREPULL=%d' % pp],
                 unwind=max(n + 4, k + 2, pre + 2), what='every sequence of %d push/pull/pop after %d pushes and %d pulls, N=%d, 0-3 writers' % (k, pre, pp, n), **kw)
def dequev(n, k, pre=0, d='int', **kw): # symbolic contents
    return Query('dequev_n%d_ops%d_pre%d_%s' % (n, k, pre, d.replace(' ', '_')), 'C01_deque.cpp', ['CAP=%d' % n, 'OPS=%d' % k, 'PRE=%d' % pre, 'SYMV', 'DATA=%s' % d],
                 unwind=max(n + 4, k + 2, pre + 2), what='every sequence of %d push/pull/pop of any events after %d pushes, N=%d, 0-3 writers' % (k, pre, n), **kw)
P('C01', [dequev(1, 5), dequev(2, 4, 1, 'unsigned long'), dequev(3, 4, 3), deque(1, 6), deque(2, 6), deque(3, 7), deque(4, 6, 5, 2), deque(6, 5, 8, 1)],
  [deque(1, 10), deque(2, 10), deque(3, 10), deque(4, 10), deque(5, 9, 6, 3), deque(8, 8, 12, 5), deque(12, 6, 15, 4)],
  bounds='N in {1,2,3,4,6} (thorough also 5,8,12); all sequences of 5-7 (thorough 6-10) operations from push/pull/pop after fixed prefixes, then a full drain; every int datum and time; 0..3 attached writers',
  outside='longer histories, larger N')

def rw(n, k, pre=0, **kw):
    return Query('rw_n%d_ops%d_pre%d' % (n, k, pre), 'C02_rw.cpp', ['CAP=%d' % n, 'OPS=%d' % k, 'PRE=%d' % pre], unwind=max(n + 4, k + 2, pre + 2), **kw)
P('C02', [rw(1, 3), rw(2, 4), rw(3, 5), rw(4, 4, 4), rw(6, 3, 8)], [rw(2, 7), rw(3, 8), rw(5, 7, 5), rw(8, 6, 10), rw(12, 4, 16)],
  bounds='N in {1,2,3,4,6} (thorough up to 12); all sequences of 3-5 (thorough up to 8) push/pull/pop after 0-10 pushes, then one write and one read at any 64-bit index with any event',
  outside='longer histories, larger N')
def state(n, k, pre=0, pp=0, **kw):
    return Query('state_n%d_ops%d_pre%d_%d' % (n, k, pre, pp), 'C03_state.cpp', ['CAP=%d' % n, 'OPS=%d' % k, 'PRE=%d' % pre, 'PREPULL=%d' % pp],
                 unwind=max(n + 4, k + 2, pre + 2), **kw)
P('C03', [state(1, 5), state(2, 5), state(3, 6), state(4, 5, 5, 2), state(6, 4, 8, 1)], [state(2, 8), state(3, 9), state(5, 8, 6, 1), state(8, 7, 12, 3)],
  bounds='N in {1,2,3,4,6} (thorough up to 8); all sequences of 4-6 (thorough up to 9) push/pull/pop after fixed prefixes',
  outside='longer histories, larger N; the debug output itself (see C34)')
def copy(n, k1, k, pre=0, wr=0, **kw):
    return Query('copy_n%d_ops%d_%d_pre%d_w%d' % (n, k1, k, pre, wr), 'C04_copy.cpp', ['CAP=%d' % n, 'OPS=%d' % k, 'OPS1=%d' % k1, 'PRE=%d' % pre, 'WR=%d' % wr],
                 unwind=max(n + 4, k + 2, pre + 2), **kw)
P('C04', [copy(1, 1, 2), copy(2, 2, 3), copy(3, 2, 2, 4), copy(1, 0, 2, 2, 1), copy(2, 1, 2, 1, 1)], [copy(2, 5, 5), copy(3, 4, 5, 5), copy(5, 4, 4, 7, 1)],
  bounds='N in {1,2,3,4} (thorough 5); all sequences of up to 2 (thorough 5) operations on each buffer before the assignment and up to 3 (thorough 5) on either afterwards, with and without an attached writer',
  outside='longer histories, larger N; assignments that race with a writer')
P('C05', [Query('event_' + d.replace(' ', '_'), 'C05_event.cpp', ['DATA=%s' % d, 'FREE=%d' % f]) for d, f in (('int', 1), ('unsigned long', 1), ('char', 1), ('bool', 1))],
  bounds='all 64-bit times and all data values, for int, unsigned long, char and bool data',
  outside='other data types')

# ---------------------------------------------------------------- readers
def reader(n, k, pre, loss, **kw):
    return Query('reader_n%d_ops%d_pre%d_loss%d' % (n, k, pre, loss), 'C06_reader.cpp', ['CAP=%d' % n, 'OPS=%d' % k, 'PRE=%d' % pre, 'LOSS=%d' % loss],
                 unwind=max(n + 4, k + 2, pre + 2), **kw)
P('C06', [reader(2, 8, 1, 0), reader(3, 8, 2, 0), reader(4, 7, 6, 0)], [],
  bounds='N in {2,3,4}; all interleavings of 7-8 (thorough 10) push/synchronize/pull calls after a fixed number of pushes, without loss; all strictly increasing times',
  outside='longer histories, larger N',
  assumptions=['event times are >= 1 and strictly increasing (a fresh reader mis-synchronizes on a first event at time 0)'])
P('C07', [reader(2, 7, 1, 1), reader(3, 7, 3, 1), reader(4, 7, 5, 1)], [],
  bounds='N in {2,3,4}; all interleavings of 7 (thorough 9) push/synchronize/pull calls after a fixed number of pushes, with any overwrites; all strictly increasing times',
  outside='longer histories, larger N',
  assumptions=['event times are >= 1 and strictly increasing (a fresh reader mis-synchronizes on a first event at time 0)'])
def passive(n, k, pre, ev=0, **kw):
    return Query('passive_n%d_ops%d_pre%d_e%d' % (n, k, pre, ev), 'C08_passive.cpp', ['CAP=%d' % n, 'LEN=1', 'OPS=%d' % k, 'PRE=%d' % pre, 'EVAL=%d' % ev],
                 unwind=max(n + 4, k + 2, pre + 2), **kw)
P('C08', [passive(2, 4, 2), passive(3, 4, 5)], [],
  bounds='N in {2,3} (thorough 4); all interleavings of 4 (thorough 6) operations by two readers (synchronize, pull, pop, gap, length) and a producer; evaluation of formulas in the thorough tier and under C23',
  outside='longer histories',
  assumptions=['event times are >= 1 and strictly increasing (a fresh reader mis-synchronizes on a first event at time 0)'])
def pop(n, ln, sh, k, **kw):
    return Query('pop_n%d_len%d_at%d_ops%d' % (n, ln, sh, k), 'C09_pop.cpp', ['CAP=%d' % n, 'LEN=%d' % ln, 'SHIFT=%d' % sh, 'OPS=%d' % k], unwind=max(n, ln, sh, k) + 4, **kw)
P('C09', [pop(3, 2, 0, 5), pop(3, 3, 2, 5), pop(4, 4, 3, 6)], [],
  bounds='N in {3,4}; windows of 2-4 events wrapped and unwrapped; all sequences of 5-6 (thorough 8) pop/pull/synchronize',
  outside='longer histories, pushes in between (C07)',
  assumptions=['event times are >= 1 and strictly increasing (a fresh reader mis-synchronizes on a first event at time 0)'])
def cursor(n, ln, sh, k, **kw):
    return Query('cursor_n%d_len%d_at%d_ops%d' % (n, ln, sh, k), 'C10_cursor.cpp', ['CAP=%d' % n, 'LEN=%d' % ln, 'SHIFT=%d' % sh, 'OPS=%d' % k], unwind=max(n, ln, sh, k) + 4, **kw)
P('C10', [cursor(3, 2, 0, 5), cursor(3, 3, 2, 5), cursor(4, 4, 3, 6)], [],
  bounds='capacity 1..4 (thorough up to 6); windows of 1..4 events (thorough up to 6) at fixed placements in the ring, wrapped and unwrapped; all sequences of 5-6 (thorough 8) cursor operations',
  outside='longer sequences',
  assumptions=['event times are >= 1 and strictly increasing (a fresh reader mis-synchronizes on a first event at time 0)'])
def sett(n, ln, sh, **kw):
    return Query('set_n%d_len%d_at%d' % (n, ln, sh), 'C11_set.cpp', ['CAP=%d' % n, 'LEN=%d' % ln, 'SHIFT=%d' % sh], unwind=max(n, ln, sh) + 4, **kw)
P('C11', [sett(2, 1, 0), sett(3, 2, 1), sett(3, 3, 2), sett(4, 3, 3)], [sett(5, 4, 3)],
  bounds='capacity 1..4 (thorough up to 6); windows of 1..4 events (thorough up to 6) at fixed placements in the ring, wrapped and unwrapped; every starting position; every time t',
  outside='longer windows',
  assumptions=['event times are >= 1 and strictly increasing (a fresh reader mis-synchronizes on a first event at time 0)'])
P('C12', [Query('connectives', 'C12_kleene.cpp', [])],
  bounds='all operand values of the three- and four-valued domains and all compositions of depth two',
  outside='nothing: the operand domain is finite')
P('C13', [Query('sum_compare', 'C13_dur.cpp', ['SUM=1', 'LIM=(1LL<<62)']), Query('product_24bit', 'C13_dur.cpp', ['SUM=0', 'LIM=(1LL<<12)'])],
  bounds='sum and comparison for all values of magnitude below 2^62; products for operands of magnitude below 2^12',
  outside='products of larger values (the 64-bit multiplier is out of reach for the SAT solver)')

# ---------------------------------------------------------------- formulas
OPS = dict(UNTIL=1, ALWAYS=2, EVEQ=3, ALEQ=4, EVUNB=5, SINCE=6, HIST=7, PASTEQ=8, HISTEQ=9, DUR=10)
def fm(op, n, ln, sh, bnd, **kw):
    return Query('%s_n%d_len%d_at%d_b%s' % (op.lower(), n, ln, sh, bnd), 'formula.cpp', ['OP=%d' % OPS[op], 'CAP=%d' % n, 'LEN=%d' % ln, 'SHIFT=%d' % sh, 'BND=%s' % bnd],
                 unwind=max(n, ln, sh) + 4, **kw)
P('C14', [fm('UNTIL', 2, 1, 0, 5), fm('UNTIL', 3, 2, 0, 1), fm('UNTIL', 4, 4, 2, 5)], [],
  bounds='capacity 1..4 (thorough up to 6); windows of 1..4 events (thorough up to 6) at fixed placements in the ring, wrapped and unwrapped; every cursor position, evaluation time, event times and operand valuation (three-valued, one value per event), operands that leave the cursor anywhere; template bounds: bounds 1, 5 and others',
  outside='longer windows; other template bounds; operands that change between events',
  assumptions=['event times are >= 1 and strictly increasing (a fresh reader mis-synchronizes on a first event at time 0)', 'times below 2^60, so that t plus a bound does not overflow'])
P('C15', [fm('ALWAYS', 2, 1, 0, 5), fm('ALWAYS', 3, 2, 0, 1), fm('ALWAYS', 4, 4, 2, 5)], [],
  bounds='capacity 1..4 (thorough up to 6); windows of 1..4 events (thorough up to 6) at fixed placements in the ring, wrapped and unwrapped; every cursor position, evaluation time, event times and operand valuation (three-valued, one value per event), operands that leave the cursor anywhere; template bounds: bounds 1, 5 and others',
  outside='longer windows; other template bounds; operands that change between events',
  assumptions=['event times are >= 1 and strictly increasing (a fresh reader mis-synchronizes on a first event at time 0)', 'times below 2^60, so that t plus a bound does not overflow'])
P('C16', [fm(o, *a) for o in ('EVEQ', 'ALEQ') for a in ((3, 2, 0, 1), (4, 3, 3, 5))], [],
  bounds='capacity 1..4 (thorough up to 6); windows of 1..4 events (thorough up to 6) at fixed placements in the ring, wrapped and unwrapped; every cursor position, evaluation time, event times and operand valuation (three-valued, one value per event), operands that leave the cursor anywhere; template bounds: bounds 1, 5 and others',
  outside='longer windows; other template bounds; operands that change between events',
  assumptions=['event times are >= 1 and strictly increasing (a fresh reader mis-synchronizes on a first event at time 0)', 'times below 2^60, so that t plus a bound does not overflow'])
P('C17', [fm('EVUNB', 2, 1, 0, 0), fm('EVUNB', 4, 4, 2, 0)], [],
  bounds='capacity 1..4 (thorough up to 6); windows of 1..4 events (thorough up to 6) at fixed placements in the ring, wrapped and unwrapped; every cursor position, evaluation time, event times and operand valuation (three-valued, one value per event), operands that leave the cursor anywhere; template bounds: no bound',
  outside='longer windows; other template bounds; operands that change between events',
  assumptions=['event times are >= 1 and strictly increasing (a fresh reader mis-synchronizes on a first event at time 0)', 'times below 2^60, so that t plus a bound does not overflow'])
P('C18', [fm('SINCE', 2, 1, 0, 5), fm('SINCE', 3, 2, 0, 1), fm('SINCE', 4, 4, 2, 5)], [],
  bounds='capacity 1..4 (thorough up to 6); windows of 1..4 events (thorough up to 6) at fixed placements in the ring, wrapped and unwrapped; every cursor position, evaluation time, event times and operand valuation (three-valued, one value per event), operands that leave the cursor anywhere; template bounds: bounds 1, 5 and others',
  outside='longer windows; other template bounds; operands that change between events',
  assumptions=['event times are >= 1 and strictly increasing (a fresh reader mis-synchronizes on a first event at time 0)', 'times below 2^60, so that t plus a bound does not overflow'])
P('C19', [fm('HIST', 2, 1, 0, 5), fm('HIST', 3, 2, 0, 1), fm('HIST', 4, 4, 2, 5)], [],
  bounds='capacity 1..4 (thorough up to 6); windows of 1..4 events (thorough up to 6) at fixed placements in the ring, wrapped and unwrapped; every cursor position, evaluation time, event times and operand valuation (three-valued, one value per event), operands that leave the cursor anywhere; template bounds: bounds 1, 5 and others',
  outside='longer windows; other template bounds; operands that change between events',
  assumptions=['event times are >= 1 and strictly increasing (a fresh reader mis-synchronizes on a first event at time 0)', 'times below 2^60, so that t plus a bound does not overflow'])
P('C20', [fm(o, *a) for o in ('PASTEQ', 'HISTEQ') for a in ((3, 2, 0, 1), (4, 3, 3, 5))], [],
  bounds='capacity 1..4 (thorough up to 6); windows of 1..4 events (thorough up to 6) at fixed placements in the ring, wrapped and unwrapped; every cursor position, evaluation time, event times and operand valuation (three-valued, one value per event), operands that leave the cursor anywhere; template bounds: bounds 1, 5 and others',
  outside='longer windows; other template bounds; operands that change between events',
  assumptions=['event times are >= 1 and strictly increasing (a fresh reader mis-synchronizes on a first event at time 0)', 'times below 2^60, so that t plus a bound does not overflow'])
P('C21', [fm('DUR', 3, 2, 0, 1), fm('DUR', 3, 3, 2, 5), fm('DUR', 4, 4, 2, 5)], [],
  bounds='capacity 1..4 (thorough up to 6); windows of 1..4 events (thorough up to 6) at fixed placements in the ring, wrapped and unwrapped; every cursor position, evaluation time, event times and operand valuation (three-valued, one value per event), operands that leave the cursor anywhere; template bounds: lengths 1, 5 and others',
  outside='longer windows; other template bounds; operands that change between events',
  assumptions=['event times are >= 1 and strictly increasing (a fresh reader mis-synchronizes on a first event at time 0)', 'times below 2^60, so that t plus a bound does not overflow'])
def prp(n, ln, sh, **kw):
    return Query('prop_n%d_len%d_at%d' % (n, ln, sh), 'C22_prop.cpp', ['CAP=%d' % n, 'LEN=%d' % ln, 'SHIFT=%d' % sh], unwind=max(n, ln, sh) + 4, **kw)
P('C22', [prp(1, 1, 0), prp(3, 2, 0), prp(3, 3, 2), prp(5, 5, 3)], [],
  bounds='capacity 1..5; windows of 1..5 events wrapped and unwrapped; every cursor position, datum, proposition and time',
  outside='longer windows',
  assumptions=['event times are >= 1 and strictly increasing (a fresh reader mis-synchronizes on a first event at time 0)', 'times below 2^60, so that t plus a bound does not overflow'])

PURE = dict(OPS, PROP=11, INBETWEEN=12)
def pure(op, n, ln, sh, bnd=5, at=None, **kw):
    return Query('pure_%s_n%d_len%d_at%d_b%s%s' % (op.lower(), n, ln, sh, bnd, '' if at is None else '_c%d' % at), 'C23_pure.cpp',
                 ['OP=%d' % PURE[op], 'CAP=%d' % n, 'LEN=%d' % ln, 'SHIFT=%d' % sh, 'BND=%s' % bnd] + ([] if at is None else ['AT=%d' % at]),
                 unwind=max(n, ln, sh) + (4 if at is None else 3), **kw)
P('C23', [pure(o, *a) for o in PURE if o != 'INBETWEEN' for a in ((2, 0, 1), (3, 3, 2))] + [pure('INBETWEEN', 3, l, 2, at=c) for l in (0, 3) for c in range(l + 1)], [],
  bounds='every operator; windows of 0..3 (thorough 5) events; every cursor position, time and operand valuation; in-between sampling at each cursor position',
  outside='longer windows',
  assumptions=['event times are >= 1 and strictly increasing (a fresh reader mis-synchronizes on a first event at time 0)', 'times below 2^60, so that t plus a bound does not overflow'])

def nest(form, n, ln, sh, at=None, w='', b1=5, b2=3, src='C33_nest.cpp', more=0, **kw):
    return Query('%s_f%d_n%d_len%d%s_at%d_b%d_%d%s' % (src[4:-4], form, n, ln, '+%d' % more if more else '', sh, b1, b2, '' if at is None else '_c%d' % at), src,
                 ['FORM=%d' % form, 'CAP=%d' % n, 'LEN=%d' % ln, 'SHIFT=%d' % sh, 'B1=%d' % b1, 'B2=%d' % b2] + (['MORE=%d' % more] if more else []) +
                 ([] if at is None else ['AT=%d' % at]) + (['WT'] if 'T' in w else []) + (['WF'] if 'F' in w else []) + (['WU'] if 'U' in w else []), unwind=max(n, ln + more, sh) + 4, **kw)
NESTQ = [(11, 0, 'TF'), (11, 1, 'TFU'), (12, 0, 'TF'), (12, 1, 'TF'), (13, 0, 'TFU'), (13, 1, 'TFU'), (14, 1, 'F'), (14, 3, 'TFU'), (15, 1, 'TFU'), (15, 3, 'TF'),
         (16, 1, ''), (16, 3, 'TFU'), (17, 0, 'TFU'), (17, 1, 'TFU'), (18, 0, 'TFU'), (18, 1, 'TFU'), (19, 1, 'TFU'), (19, 3, 'TFU'), (20, 0, 'TFU'), (20, 1, 'TFU'),
         (21, 0, 'TFU'), (21, 1, 'TFU'), (22, 1, 'TFU'), (22, 3, 'F')]
P('C33', [nest(f, 4, 4, 2, at=c, w=w) for f, c, w in NESTQ], [],
  bounds='12 nestings of depth two and three at two cursor positions each; windows of 4 events wrapped in the ring',
  outside='longer windows, deeper nestings',
  assumptions=['event times are >= 1 and strictly increasing (a fresh reader mis-synchronizes on a first event at time 0)', 'times below 2^60, so that t plus a bound does not overflow'])
def stab(form, c, w, n=5, ln=3, more=2, sh=4, **kw): return nest(form, n, ln, sh, c, w, src='C24_stable.cpp', more=more, **kw)
STABQ = [(1, 0, 'TFUX'), (1, 1, 'TFUX'), (2, 0, 'TFUX'), (2, 1, 'TFUX'), (3, 0, 'TFUX'), (3, 1, 'TFUX'), (4, 2, 'TFUX'), (4, 1, 'TFU'), (5, 2, 'TFUX'), (5, 1, 'TFU'), (6, 2, 'TFX'), (6, 1, 'TF'), (7, 0, 'TUX'), (7, 1, 'TUX'),
         (11, 0, 'TFX'), (12, 0, 'TF'), (13, 0, 'TFUX'), (14, 2, 'TFUX'), (15, 2, 'TFUX'), (16, 2, 'TFU'), (17, 0, 'TFUX'), (18, 0, 'TFUX'), (21, 0, 'TFUX'), (22, 2, 'F')]
P('C24', [stab(f, c, w) for f, c, w in STABQ], [],
  bounds='24 formula/position combinations (7 basic operators, 11 nestings of depth two); traces of 3 events extended by up to 2 further events',
  outside='longer traces and extensions, deeper nestings',
  assumptions=['event times are >= 1 and strictly increasing (a fresh reader mis-synchronizes on a first event at time 0)', 'times below 2^60, so that t plus a bound does not overflow'])
def betw(n, ln, sh, at, bnd=5, **kw):
    return Query('between_n%d_len%d_at%d_b%d_c%d' % (n, ln, sh, bnd, at), 'C25_between.cpp', ['CAP=%d' % n, 'LEN=%d' % ln, 'SHIFT=%d' % sh, 'BND=%d' % bnd, 'AT=%d' % at], unwind=max(n, ln, sh) + 3, **kw)
P('C25', [betw(3, 3, 2, c) for c in (0, 1, 2)] + [betw(4, 4, 0, c, 9) for c in (0, 1)] + [betw(5, 5, 4, 0, 9)], [],
  bounds='windows of 3-5 events, bounds 5 and 9 time units, one query per cursor position; every time, event times and operand valuation',
  outside='longer windows and bounds',
  assumptions=['event times are >= 1 and strictly increasing (a fresh reader mis-synchronizes on a first event at time 0)', 'times below 2^60, so that t plus a bound does not overflow'])

# ---------------------------------------------------------------- writer
def writer(n, k, pre=0, pat=None, **kw):
    return Query('writer_n%d_ops%d_pre%d%s' % (n, k, pre, '' if pat is None else '_' + format(pat, '0%db' % k)[::-1].replace('0', 'W').replace('1', 'C')), 'C26_writer.cpp',
                 ['CAP=%d' % n, 'OPS=%d' % k, 'PRE=%d' % pre] + ([] if pat is None else ['PAT=%d' % pat]), unwind=max(n + 4, k + 2, pre + 2), **kw)
P('C26', [writer(1, 3, 1), writer(2, 4, 2, 3), writer(2, 4, 2, 5), writer(3, 5, 3, 0b10101), writer(4, 3, 7)], [],
  bounds='N in {1,2,3,4}; all sequences of 3-5 writer push/push_all and consumer pull/pop calls (who is next is fixed per query from 3 calls on); every clock reading below 4 s, every datum and time',
  outside='longer histories; several writers (C27)')

# ---------------------------------------------------------------- concurrency
def conc(n, na, nb, segs, pre=0, nc=0, stamp=0, **kw):
    return Query('writers_n%d_%d+%d%s_pre%d_segs%d%s' % (n, na, nb, '+%d' % nc if nc else '', pre, segs, '_stamp' if stamp else ''), 'C27_writers.cpp',
                 ['CAP=%d' % n, 'NA=%d' % na, 'NB=%d' % nb, 'SEGS=%d' % segs, 'PRE=%d' % pre] + (['NC=%d' % nc] if nc else []) + (['STAMP'] if stamp else []),
                 threads=['TA', 'TB'] + (['TC'] if nc else []), unwind=max(n + 2, segs + 1, pre + 1, na + nb + 2, 5), **kw)
SAME = Query('equal_event_one_lap_earlier', 'C27_writers.cpp', ['CAP=2', 'NA=1', 'NB=3', 'SEGS=3', 'PRE=3', 'SAME'], threads=['TA', 'TB'], unwind=6)
P('C27', [conc(2, 1, 1, 4), conc(2, 2, 1, 4), conc(2, 2, 2, 4, 1), conc(2, 1, 1, 3, 0, 1), conc(1, 1, 2, 3), conc(2, 1, 2, 4, 3, stamp=1), SAME],
  [conc(2, 2, 2, 5, 1, timeout=3000), conc(3, 2, 2, 4, 2, timeout=3000), conc(2, 1, 1, 4, 0, 1, timeout=3000), conc(1, 2, 2, 4, timeout=3000), conc(2, 3, 2, 4, 2, timeout=3000)],
  bounds='N in {1,2} (thorough 3); two writers with 1-2 (thorough 3) pushes each, or three writers with one push each, after 0-3 earlier pushes; every interleaving at the granularity of single memory accesses with at most 3-4 (thorough 5) context blocks of each of the writers, whatever their lengths; every push that yields must finish once the others have run',
  outside='more pushes, writers and context switches; memory-model reorderings (sequentially consistent interleavings only); interleavings inside one memory access',
  assumptions=['sequentially consistent memory (the atomics are seq_cst, slot accesses are plain)', 'events of different pushes differ, except in equal_event_one_lap_earlier (a known finding)'])
def race(mode, n, nw, pre, segs, first=0, np=2, want=1, **kw):
    d = ['CAP=%d' % n, 'NW=%d' % nw, 'PRE=%d' % pre, 'SEGS=%d' % segs, 'FIRST=%d' % first]
    nm = '%s_n%d_%d_pre%d_segs%d_%s' % (mode, n, nw, pre, segs, 'rw'[first == 0])
    if mode.startswith('snap'): d.append('SNAP=%s' % mode[4:])
    else:
        d += ['NP=%d' % np, 'WANT=%d' % want]; nm += '_np%d' % np
        if 'sync' in mode: d += ['SYNC2', 'EARLY=1']
        if 'lap' in mode: d.append('LAP')
    return Query(nm, 'C28_race.cpp', d, threads=['TW', 'TR'], unwind=max(pre + nw + 3, segs + 1, 5), **kw)
P('C28', [race('snap1', 2, 3, 1, 4, 1), race('snap2', 2, 3, 2, 4, 1), race('pull', 4, 3, 1, 4), race('pull', 2, 3, 2, 4, 1), race('pull_sync', 3, 3, 2, 4),
          race('pull_lap', 2, 3, 2, 4, 1)],
  [race('snap1', 2, 4, 2, 5, 1, timeout=3000), race('snap2', 2, 4, 3, 4, 0, timeout=3000), race('pull', 3, 4, 2, 5, 1, timeout=3000), race('pull_sync', 3, 4, 2, 4, 1, timeout=3000)],
  bounds='N in {2,3,4}; one writer with 3 (thorough 4) pushes against one reader with 2 pulls, a synchronize and pulls, or state/length snapshots, after 1-2 earlier pushes; every interleaving of single memory accesses with at most 4 (thorough 5) context blocks',
  outside='longer runs; memory-model reorderings (sequentially consistent interleavings only); several readers at once (readers do not write shared memory, C08)',
  assumptions=['sequentially consistent memory', 'event times are strictly increasing and >= 1'])

# ---------------------------------------------------------------- tasks
def life(nm, jobs=2, naps=3, wake=1, more=(), **kw):
    return Query(nm, 'C31_life.cpp', ['JOBS=%d' % jobs, 'NAPS=%d' % naps, 'WAKE=%d' % wake] + list(more), unwind=max(jobs + wake, naps) + 3, env='struct.task', **kw)
P('C31', [life('life'), life('early_start', more=['EARLY']), life('enable_twice', more=['AGAIN'])],
  [life('life_jobs4', 4, 4, 2, timeout=3000), life('early_start_jobs3', 3, 4, 2, ['EARLY'], timeout=3000)],
  bounds='up to 2 (thorough 4) jobs, 3 (thorough 4) polls of the start trap, 1 (thorough 2) early wakeups; enable, disable and a second enable placed before any access of the task thread to the task\'s fields or any of its POSIX calls, or by the thread creating the task right after pthread_create',
  outside='more jobs and polls; enabling again after disable; several owners calling at once',
  assumptions=['an enable/disable call of the owner happens between two accesses of the task thread (its single store is the only access that matters)', 'the POSIX calls behave as specified (stand-ins in harness/task.h)'])
def sched(nm, jobs=2, wake=0, changes=1, more=(), **kw):
    return Query(nm, 'C30_sched.cpp', ['JOBS=%d' % jobs, 'READS=2', 'WAKE=%d' % wake, 'CHANGES=%d' % changes] + list(more), unwind=max(jobs + 3, wake + 2), env='struct.task', **kw)
P('C30', [sched('task_jobs2', 2, 0, 2), sched('task_wake', 1, 1, 1), sched('monitor_jobs2', 2, 0, 1, more=['MON'])],
  [sched('task_jobs4', 4, 0, 3, timeout=3000), sched('task_jobs2_wake2', 2, 2, 2, timeout=3000), sched('monitor_jobs3', 3, 0, 2, more=['MON'], timeout=3000)],
  bounds='2 (thorough 4) jobs, up to 1 (thorough 2) early wakeups per run and 1-2 (thorough 3) period changes at any access of the task thread; any start time, any clock readings (also going backward), 16 periods from 1 us to 2^32-1 us (the conversion of every period is C29)',
  outside='more jobs and changes; periods outside the table (C29 covers their conversion)',
  assumptions=['the POSIX calls behave as specified (stand-ins in harness/task.h)', 'a period set before the end of a job applies to the next release; one set between the end of a job and its wait may or may not'])
def mon(nm, ops=3, more=(), **kw):
    return Query(nm, 'C32_mon.cpp', ['OPS=%d' % ops] + list(more), unwind=ops + 3, env='struct.task', **kw)
P('C32', [mon('settings'), mon('settings_default', 2, ['PLAIN']), mon('effective_scheduling', 1, ['EFFECTIVE'])],
  [mon('settings_ops6', 6, timeout=3000), mon('settings_default_ops5', 5, ['PLAIN'], timeout=3000)],
  bounds='every period, policy 0-6, priority 0-99, result of every pthread call, and every sequence of 3 (thorough 6) setPeriod/enable/disable/join calls on a monitor whose thread has not yet been scheduled (C30/C31 run the thread)',
  outside='longer call sequences; the default policy and priority are taken from DEFAULT_SCHED/DEFAULT_PRIORITY, not from the comment in periodicmonitor.h',
  assumptions=['the POSIX calls behave as specified (stand-ins in harness/task.h)'])

# ---------------------------------------------------------------- time
TIMEPARTS = ['add_sub', 'compare', 'clear_isset', 'period', 'event_clock']
CADICAL = ['--sat-solver', 'cadical']
P('C29', [Query(nm, 'C29_time.cpp', ['PART=%d' % (i + 1)], unwind=3, solver=CADICAL if nm == 'period' else None) for i, nm in enumerate(TIMEPARTS)] +
  [Query('event_clock_riscv_' + o, 'C29_time.cpp', ['PART=5', '__riscv=1', 'NO_THREADS', d], unwind=3, stubs=True) for o, d in (('nuttx', '__NUTTX__'), ('rtems', '__rtems__'))], [],
  bounds='every pair of normalized timespecs with seconds of magnitude up to 2^60, the result in a new object or in either operand; every 32-bit period; every clock reading from 0 to 2^63 ns',
  outside='timespecs that are not normalized; the Cortex-M clocks (hardware registers, floating point); the variants without a clock (clockgettime() is 0)')

# ---------------------------------------------------------------- target variants
import copy as _copy
VARIANTS = {'hw': ['__HW__'], 'riscv': ['__riscv=1', 'NO_THREADS']}
def variant(q, v, **kw):
    r = _copy.copy(q); r.name = q.name + '_' + v; r.defs = q.defs + VARIANTS[v]
    for k in kw: setattr(r, k, kw[k])
    return r
def _both(pid, names=None, hw=True):
    qs = [q for q in PROPS[pid]['quick'] if names is None or q.name in names]
    return [variant(q, v) for q in qs for v in (('hw', 'riscv') if hw else ('riscv',))]
_c35 = [variant(q, v) for v in ('hw', 'riscv') for q in [dequev(2, 4, 1, 'unsigned long'), deque(3, 6), rw(3, 4), state(3, 5), reader(2, 6, 1, 0), reader(2, 6, 1, 1), passive(2, 3, 2)]]
_c35 += [variant(q, 'riscv') for q in [copy(2, 1, 2, 1, 1), writer(1, 3, 1), writer(2, 3, 2, 2)]]
_heavy = [q.name for q in PROPS['C33']['quick'] if any('f%d_' % f in q.name for f in (17, 18, 19, 22))]
for _p in ['C05', 'C09', 'C10', 'C11', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C33']: _c35 += [q for q in _both(_p) if not any(q.name.startswith(n) for n in _heavy)]
_c35t = []
for _p in ['C01', 'C02', 'C03', 'C06', 'C07', 'C08', 'C33']: _c35t += _both(_p)
for _p in ['C04', 'C26']: _c35t += _both(_p, hw=False)
P('C35', _c35, [q for q in _c35t if q.name not in [x.name for x in _c35]],
  bounds='the __HW__ and the RISC-V (no threads) variants, each with the harnesses, oracles and (slightly smaller) bounds of C01-C03, C05-C11, C13-C23 and C33, RISC-V also those of C04 and C26: both variants meet the same specification as the x86-64 one for all inputs within the bounds',
  outside='the ARM variants (their headers need the vendor SDK), concurrency on the variants (no guarantee is given there); __HW__ has no writer.h (an #error tells to use push) and no buffer assignment (no memcpy)',
  assumptions=['event times are >= 1 and strictly increasing', 'times and durations are not negative (RISC-V: timespan is unsigned)', 'the RISC-V variant without an operating system has no clock (stamps are 0)'])

# ---------------------------------------------------------------- any use of the API
def wild(grp, n, k, pre, sync=0, more=(), op=0, **kw):
    d = list(more); nm = ['', 'buffer', 'reader', 'trace', 'eval'][grp] + (str(op) if op else '')
    return Query('wild_%s_n%d_ops%d_pre%d_sync%d%s' % (nm, n, k, pre, sync, ''.join('_' + x.lower() for x in d)), 'C34_wild.cpp',
                 ['CAP=%d' % n, 'OPS=%d' % k, 'PRE=%d' % pre, 'SYNC=%d' % sync, 'GROUP=%d' % grp, 'OP=%d' % op] + d, unwind=max(n + 4, k + 2, pre + 2), memsafe=True, **kw)
P('C34', [wild(1, 2, 4, 2), wild(1, 1, 4, 1), wild(1, 3, 3, 4, 0, ['DBG']), wild(2, 2, 4, 2), wild(2, 3, 4, 4, 1), wild(2, 2, 3, 3, 0, ['DBG']), wild(2, 3, 4, 5, 2, ['WRITER']),
          wild(3, 2, 4, 2), wild(3, 3, 4, 5, 4), wild(3, 2, 2, 3, 1, ['DBG']), wild(3, 4, 4, 4, 3)] + [wild(4, n, k, p, s, op=o) for n, k, p, s in ((2, 1, 3, 1), (3, 2, 3, 2)) for o in range(1, 10)],
  [wild(1, 3, 6, 4, timeout=3000), wild(2, 3, 6, 5, 2, timeout=3000), wild(3, 3, 6, 5, 3, timeout=3000), wild(3, 2, 4, 3, 1, ['DBG'], timeout=3000)] + [wild(4, 3, 3, 5, 3, op=o, timeout=3000) for o in range(1, 10)],
  bounds='N in {1,2,3,4}; every sequence of 2-4 (thorough 6) calls of the buffer, reader or trace API after up to 5 pushes, every 64-bit index, cursor and time; every operator from every cursor with operands that put the cursor at any slot; debug output (level 3) included; every pointer and array access of the encoded code is checked (also indices inside an object)',
  outside='longer sequences; a writer destroyed while its buffer is in use (writers must live as long as the buffer); the formula-level debug macros (RTMLIB_ENABLE_DEBUG*)')
