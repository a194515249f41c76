#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only because JSON lines are unpleasant to edit)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
rows = []
def p(i, title, st, over, q, why, files, mech, state=(), obs=()):
    rows.append({'id': i, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why,
                 'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                             'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                             'observe_at': list(obs), 'hook_needed': None}})
CB, RD, WR, EV, AT = 'src/circularbuffer.h', 'src/reader.h', 'src/writer.h', 'src/event.h', 'src/atomic_compat.h'
FM, TR, R3, TM = 'src/rmtld3/formulas.h', 'src/rmtld3/reader.h', 'src/rmtld3/rmtld3.h', 'src/rmtld3/terms.h'
TK, TC, PM = 'src/task_compat.h', 'src/time_compat.h', 'src/periodicmonitor.h'

p('C01', 'The buffer is a bounded queue/stack that overwrites only the oldest event',
  'A buffer of capacity N behaves as a double-ended queue of at most N events: push appends (and, when N events are pending, discards exactly the oldest one), pull removes and returns the oldest pending event, pop removes and returns the newest, and length is always the number pending. push returns BUFFER_OVERFLOW exactly when it discards an event; pull and pop return EMPTY, and leave the caller\'s event and the buffer untouched, exactly when nothing is pending; otherwise the result is OK, or UNSAFE when more than one writer is attached. Events come back bit-for-bit as they went in.',
  ['inputs', 'histories', 'configurations'], 'every sequence of push/pull/pop/length, every capacity N >= 1, every event value, every number of attached writers',
  'The two buffer tests push and drain once at N=100 with fixed values; overflow after wrap-around, pop/pull mixed with overflow, and small capacities are never reached.',
  [CB, EV, AT], [('push/pull/pop over top and bottom', CB), ('increment_top / increment_bottom / decrement_top wrap-around', CB)],
  [('top/bottom', 'next free slot / oldest pending slot, N+1 slots used as a ring', CB)], ['push', 'pull', 'pop', 'length'])
p('C02', 'Indexed read and write touch exactly the addressed slot, and only valid ones',
  'For an index in 0..N, write stores the event in that slot and a later read of the same index returns it, while every other slot, the order, the length and the state are unchanged; for any index above N both return OUT_OF_BOUND and change neither the buffer nor the caller\'s event. Reading never changes the buffer.',
  ['inputs', 'histories'], 'every 64-bit index, every buffer state reachable by pushes, pulls and pops, every event value',
  'Tests read a handful of small in-range indices of a freshly filled buffer; no test uses an index at or beyond the ring size, or write at all.',
  [CB], [('bounds test against the ring size in read and write', CB)], (), ['read', 'write', 'pull'])
p('C03', 'Reported state locates exactly the pending events',
  'state reports a bottom and a top in 0..N such that, starting at bottom and going round the N+1 slots, the slots before top hold exactly the pending events from oldest to newest and their number equals length; the form with timestamps additionally reports the times stored in the bottom and the top slot. Querying state, length or debug output changes nothing, and debug output reads no memory outside the buffer\'s slots.',
  ['inputs', 'histories'], 'every history of push/pull/pop, every capacity and event value',
  'Tests look at state after one concrete fill; they never check it against the pending events after wrap-around or overflow.',
  [CB], [('state / length from one atomic snapshot', CB), ('ATOMIC_TRIPLE', AT)], (), ['state', 'length', 'read', 'debug'])
p('C04', 'Assigning a buffer makes an independent, identical copy',
  'After a = b, a holds exactly the pending events of b in the same order with the same length, and from then on operations on either buffer never affect the other; b is not changed by the assignment, and the copy stays usable after b is destroyed.',
  ['inputs', 'histories'], 'every pair of buffer histories before the assignment and every operation sequence on either buffer afterwards',
  'No test assigns a buffer.', [CB, AT], [('operator= (memory copy) and the page that refers to the live state', CB)],
  [('page', 'refers to the state block holding top and bottom', AT)], ['operator=', 'push', 'pull', 'length'])
p('C05', 'Events keep what they are given and compare consistently by time',
  'An event returns exactly the data and time last stored in it by constructor, setters or assignment. <, <=, >, >= between events and between an event and a time (either side) agree with the order of the times; == between events means same time and same data, == with a time means same time, and != is always the negation of ==.',
  ['inputs'], 'every pair of data values and every pair of 64-bit times (equal, adjacent, negative, extreme)',
  'Tests only use getTime/getData on small constants; no comparison operator is exercised on equal times with different data.',
  [EV], [('comparison operators', EV), ('set/setTime/setData/operator=', EV)], (), ['operator==', 'operator!=', 'operator<'])
p('C06', 'A reader delivers events oldest first, each once, holding back only the newest',
  'As long as no undelivered event has been overwritten, a synchronized reader\'s pulls return AVAILABLE with the buffer\'s events in the order they were pushed, with no event skipped, repeated or altered, and the newest event it knows of is held back (pull then returns UNAVAILABLE, leaving the reader where it was) until a later synchronize reveals a newer one. length is the number of known events not yet delivered.',
  ['inputs', 'histories', 'configurations'], 'every interleaving of pushes, synchronize and pull calls, every capacity, all strictly increasing times',
  'The reader test performs one fill and one drain at N=100; resynchronizing mid-way, wrapping around the ring and repeated UNAVAILABLE are never combined.',
  [RD, CB], [('pull with one event of look-ahead', RD), ('synchronize soft/hard paths', RD)], [('bottom/top/timestamp', 'the reader\'s window and the time of the next event it expects', RD)], ['synchronize', 'pull', 'length'])
p('C07', 'A reader never hides the loss of an event',
  'If events a reader had not yet delivered are overwritten, the reader says so before it delivers anything beyond the hole: either synchronize returns GAP or the pull returns READER_OVERFLOW. No pull returning AVAILABLE ever delivers an event other than the successor of the previously delivered one, unless GAP or READER_OVERFLOW was reported since; after a synchronize that reports the loss, the reader continues with the oldest event still retained.',
  ['inputs', 'histories'], 'every interleaving of pushes (including any number of overwrites), synchronize and pull calls, small and large capacities, all strictly increasing times',
  'No stable test lets the writer lap the reader; the only test that does is the flaky concurrent one.',
  [RD, CB], [('timestamp comparison in gap()', RD), ('overflow check in pull', RD), ('hard synchronization', RD)], [('timestamp', 'time of the oldest event the reader still expects', RD)], ['synchronize', 'pull', 'gap'])
p('C08', 'Readers are passive and independent of each other',
  'No reader operation (construct, synchronize, pull, pop, gap, length, cursor movement, evaluation) changes the buffer: its length, its state, the events it will return and every slot stay as they were. What one reader observes never depends on what another reader of the same buffer did.',
  ['histories', 'inputs'], 'every interleaving of operations by two readers and a producer on one buffer',
  'No test attaches two readers to one buffer or compares the buffer before and after reading.',
  [RD, TR, CB], [('const reference to the buffer, private window', RD)], (), ['pull', 'synchronize', 'state', 'read'])
p('C09', 'Reader pop returns the newest known events first',
  'On a synchronized reader whose window has not been overwritten, pop returns AVAILABLE with the window\'s newest not yet removed event and shortens the window by one; it returns UNAVAILABLE without effect exactly when the window is empty. Until the next synchronize (which makes popped events known again), mixing pop and pull never delivers an event twice or out of its end\'s order.',
  ['histories', 'inputs'], 'every window content, position in the ring and sequence of pop/pull/synchronize calls',
  'Reader pop is not used by any stable test across the ring boundary.',
  [RD], [('pop / decrement_reader_top', RD)], (), ['pop', 'length'])
p('C10', 'Trace cursor moves only inside the window and reads the right neighbours',
  'The trace cursor starts where reset puts it, at the oldest event, and increment/decrement move it by exactly one event, wrapping round the ring, returning UNAVAILABLE without moving at the window\'s newest end (one past the last event) and at its oldest event. At every event of the window read returns the event there, read_next the following and read_previous the preceding event, or UNAVAILABLE exactly when there is none in the window; length counts the events from the cursor to the end, consumed those before it. Cursor pull at an event returns that event, steps past it, and answers AVAILABLE exactly when another event follows in the window.',
  ['inputs', 'histories'], 'every window (any length, any placement in the ring, wrapped or not), every cursor position and sequence of cursor operations',
  'The formula tests only use windows starting at slot 0; TODO.md itself says overlapping (wrapped) traces are untested.',
  [TR], [('increment_cursor/decrement_cursor/read_next/read_previous wrap-around', TR)], [('cursor', 'current slot between bottom and top', TR)], ['read', 'read_next', 'read_previous', 'increment_cursor', 'decrement_cursor', 'length', 'consumed', 'pull'])
p('C11', 'Positioning a trace at time t selects the event in force at t',
  'For any starting cursor position in the window, set(t) returns AVAILABLE exactly when some event of the window with a successor in the window has time <= t < the successor\'s time, and then the cursor is at that event; otherwise it returns UNAVAILABLE and leaves the cursor inside the window.',
  ['inputs', 'histories'], 'every window, starting position and 64-bit time t, before, inside, between and after the events',
  'Two tests call set once, forward from the first event; moving backward and wrapped windows are never checked.',
  [TR], [('backward and forward search in set', TR)], (), ['set', 'read', 'get_cursor'])
p('C12', 'Three-valued connectives are strong Kleene logic',
  'and, or and not over {true, false, unknown} give a definite verdict exactly when every replacement of unknown operands by true or false gives that same verdict, for all operand combinations and nestings; conversion to and from the four-valued domain is lossless on true, false and unknown.',
  ['inputs'], 'all operand values and compositions of the connectives',
  'Tests check end results of a few formulas, not the truth tables.',
  [R3], [('b3_or, b3_and, b3_not, b3_to_b4, b4_to_b3', R3)], (), ['b3_or', 'b3_and', 'b3_not'])
p('C13', 'Duration terms combine exactly and propagate unknown',
  'Sum and product of two durations are the sum and product of their values, unknown exactly if either operand is unknown; comparing with < is unknown exactly when either side is unknown and otherwise true exactly when the left value is smaller.',
  ['inputs'], 'all pairs of values in the non-overflowing range (including negatives, zero and equal values) and all unknown flags',
  'No test uses sum, product or comparison of durations.',
  [R3], [('sum_dur, mult_dur, b3_lessthan, make_duration', R3)], (), ['sum_dur', 'mult_dur', 'b3_lessthan'])
p('C14', 'Bounded until gives the right three-valued verdict on every trace',
  'With the cursor at an event of the window, until_less with bound b at time t walks the events from the cursor whose time is below t+b, evaluating both operands at each event\'s own time with the cursor there: the first event where the second operand is not false decides with that operand\'s value, or else the first where the first operand is not true decides with that one\'s value. If no event decides, the verdict is false when the trace reaches t+b or beyond and unknown when the trace ends before.',
  ['inputs', 'histories'], 'every trace up to the bound, wrapped or not, every cursor position, evaluation time, bound and operand valuation',
  'Two fixed traces are evaluated; verdicts depend on the position of events relative to t+b and on every combination of operand values.',
  [FM, TR], [('until_less: eval_i, eval_b and the fold over the trace', FM)], (), ['until_less'])
p('C15', 'Bounded always is the dual of bounded eventually',
  'With the cursor at an event of the window, always_less with bound b at t is false as soon as some event from the cursor with time below t+b evaluates to false with only true before it, unknown if an unknown comes first, true if all of them are true and the trace reaches t+b or beyond, and unknown if the trace ends before.',
  ['inputs', 'histories'], 'every trace up to the bound, cursor position, time, bound and operand valuation',
  'Two fixed examples only.', [FM], [('always_less through until_less with a negated operand', FM)], (), ['always_less'])
p('C16', 'Eventually/always at exactly t+b report the operand in force there',
  'With the cursor at an event of the window, eventually_equal and always_equal with bound b at t both return the operand\'s value at the last event from the cursor whose time is at most t+b, evaluated at that event\'s time, and unknown if there is none; with a proposition as operand this is true, false or unknown exactly as the proposition is at instant t+b.',
  ['inputs', 'histories'], 'every trace up to the bound, cursor position, time, bound and operand valuation',
  'One fixed example each; an event exactly at t+b and a trace that ends before t+b are not tried.',
  [FM], [('eventually_equal / always_equal scan', FM)], (), ['eventually_equal', 'always_equal'])
p('C17', 'Unbounded eventually stops at the first event that is not false',
  'With the cursor at an event of the window, eventually_less_unbounded returns the operand\'s value at the first event from the cursor on where it is not false, and false when it is false at every event of the window.',
  ['inputs', 'histories'], 'every trace up to the bound, cursor position and operand valuation',
  'One fixed example.', [FM], [('eventually_less_unbounded scan', FM)], (), ['eventually_less_unbounded'])
p('C18', 'Bounded since gives the right three-valued verdict on every trace',
  'With the cursor at an event not later than t, since_less with bound b at t walks back from the cursor over the events strictly before t and strictly after t-b, evaluating both operands at each event\'s own time: the first event (going back) where the second operand is not false decides with its value, or else the first where the first operand is not true decides with that one\'s value. If no event decides, the verdict is false when the trace reaches back to t-b or before, and unknown when the retained trace starts later than t-b.',
  ['inputs', 'histories'], 'every trace up to the bound, wrapped or not, every cursor position, time, bound (also larger than t) and operand valuation',
  'One fixed trace whose verdict is decided by a witness; exhaustion of the trace or window is never reached.',
  [FM, TR], [('since_less fold and its verdict on exhaustion', FM)], (), ['since_less'])
p('C19', 'Bounded historically is the dual of bounded past-eventually',
  'With the cursor at an event not later than t, historically_less with bound b at t is false if, going back from the cursor over the events strictly between t-b and t, a false operand is met with only true before it, unknown if an unknown is met first, true if all are true and the trace reaches back to t-b or before, and unknown if the retained trace starts later than t-b.',
  ['inputs', 'histories'], 'every trace up to the bound, cursor position, time, bound and operand valuation',
  'No test uses historically_less.', [FM], [('historically_less through since_less with a negated operand', FM)], (), ['historically_less'])
p('C20', 'Past-eventually/historically at exactly t-b report the operand in force there',
  'With the cursor at an event not later than t, pasteventually_equal and historically_equal with bound b at t both return the operand\'s value at the event in force at t-b (the last event strictly before t whose time is at most t-b), evaluated at that event\'s time; if the retained trace starts later than t-b they return the value at its earliest event before t, and unknown if there is no event before t.',
  ['inputs', 'histories'], 'every trace up to the bound, cursor position, time, bound (also larger than t) and operand valuation',
  'One fixed trace that starts after t-b, so the event in force at t-b is never evaluated.',
  [FM], [('pasteventually_equal scan and its stop condition', FM)], (), ['pasteventually_equal', 'historically_equal'])
p('C21', 'A duration term is the exact measure of the operand over [t, t+u)',
  'The cursor is at an event not later than t. When duration_term with length u at t is reported as known, its value is exactly the total time within [t, t+u) during which the operand (constant from each event to the next) is true; events before t do not contribute. It is reported unknown if the operand is unknown over some part of [t, t+u) or the trace does not extend beyond t+u, and it is known whenever the trace extends beyond t+u and the operand is known at every event from the one in force at t to the one in force at t+u.',
  ['inputs', 'histories'], 'every trace up to the bound, cursor position at or before t, time t, length u (also shorter than one event interval) and operand valuation',
  'One fixed trace with t at the first event and the window ending in mid-interval.',
  [TM], [('duration_term lower / upper / in-between cases', TM)], (), ['duration_term'])
p('C22', 'A proposition is decided only inside a known interval',
  'prop(p) at t is true or false exactly when the event at the cursor has a successor in the window and t lies in [its time, the successor\'s time), and then true exactly when the event carries p; otherwise it is unknown.',
  ['inputs', 'histories'], 'every trace, wrapped or not, cursor position, proposition and time',
  'Used in all formula tests but only inside unwrapped traces with fixed times.',
  [FM, TR], [('prop', FM)], (), ['prop'])
p('C23', 'Evaluating a formula has no side effects',
  'Evaluating any operator or term leaves the trace cursor, the reader\'s window, the buffer and the time argument as they were, even when a subformula leaves the cursor elsewhere, so evaluating twice gives the same verdict, and evaluation always terminates, also on a window without events or at its end.',
  ['inputs', 'histories'], 'every operator, trace, cursor position, time and subformula behaviour',
  'Each test evaluates one formula once on a fresh trace.',
  [FM, TM, TR], [('saving and restoring the cursor around every operator and operand', FM)], (), ['get_cursor', 'length'])
p('C24', 'A definite verdict never changes when the trace grows',
  'If a formula built from propositions, connectives, until, always, since, historically and durations with bounds, or eventually/always/past-eventually at exactly a bound applied directly to propositions, evaluates to true or false on a trace, it evaluates to the same verdict at the same time after any further events (later in time) are appended and the reader is synchronized, as long as nothing is overwritten; a known duration keeps its value.',
  ['histories', 'inputs'], 'every trace, every extension, every such formula up to depth two, and duration terms',
  'No test extends a trace after evaluating on it.',
  [FM, TM, RD], [('unknown until the trace reaches the bound', FM)], (), ['until_less', 'always_less', 'eventually_equal', 'since_less', 'duration_term', 'synchronize'])
p('C25', 'Sampling between events never changes an until verdict over propositions',
  'With in-between sampling switched on, until_less over operands that only change at events gives the same verdict as without it whenever the trace starts at the cursor and is dense enough for no sample to fall in a different interval than its event, and every sample it takes evaluates the operands with the cursor at the event in force at the sampled time; it terminates and leaves the cursor unchanged.',
  ['inputs', 'histories'], 'every trace up to the bound, cursor position, time and valuation',
  'No test enables in-between sampling.', [FM, TR], [('in-between loop of until_less, set', FM)], (), ['until_less'])
p('C26', 'A writer time-stamps and appends each event exactly once, in order',
  'With a single writer, push stamps the caller\'s event with the clock reading taken during the call and appends it; push_all appends it with the time it already has; the buffer then contains the most recent N events in push order, the result is BUFFER_OVERFLOW exactly when the oldest was discarded and OK otherwise, and the writer can be used freely together with pulls and pops by the consumer. Every call returns.',
  ['inputs', 'histories'], 'every capacity, sequence of push/push_all/pull/pop and clock readings',
  'The writer test pushes a fixed number of events into a large buffer and never overflows it.',
  [WR, AT, CB], [('ATOMIC_PUSH loop and swap between the writer\'s own and the buffer\'s state block', AT), ('push / push_all', WR)], [('page', 'which state block is current, plus a counter', AT)], ['push', 'push_all', 'pull', 'length'])
p('C27', 'Concurrent writers never lose, duplicate or corrupt events, and always finish',
  'When several writers push concurrently to one buffer, the final content is as if the pushes had happened one after another in some order consistent with each writer\'s own order: every push occupies its own place, none is lost except by overwriting the oldest, no event is torn, results count overwrites exactly, the length is right, and every push finishes once the others get to run.',
  ['schedules', 'inputs'], 'every interleaving of the memory accesses of two (and more) writers doing several pushes each',
  'The concurrent test is excluded as flaky and samples a few schedules of the host machine.',
  [WR, AT, CB], [('compare-and-swap of the page with a counter', AT), ('waiting for the previous event to be in place', AT), ('second state block', AT)], [('page', 'state block reference and counter, swapped with one 128-bit compare-and-swap', AT)], ['push', 'push_all', 'read', 'state'])
p('C28', 'A reader racing with a writer never returns a wrong event as good',
  'While a writer pushes concurrently, a reader\'s pulls that return AVAILABLE yield pushed events, whole and in order, without skipping or repeating, unless a loss was reported in between; state and length seen by a reader are always consistent snapshots of some moment.',
  ['schedules', 'histories'], 'every interleaving of one writer\'s pushes with one reader\'s synchronize/pull/state/length calls',
  'The concurrent reader/writer test is excluded as flaky.',
  [RD, WR, AT, CB], [('state read through the page', AT), ('look-ahead of one event in pull', RD), ('gap detection by time', RD)], (), ['synchronize', 'pull', 'state', 'length'])
p('C29', 'Time arithmetic is exact and normalized',
  'Adding and subtracting normalized timespecs gives the exact, normalized result; comparison orders them like the instants they denote; clear/isset agree with zero; converting a period in microseconds gives the normalized timespec of exactly that length; the event clock is the exact nanosecond count of the system clock reading.',
  ['inputs'], 'all normalized timespecs, periods and clock readings in the representable range',
  'Only exercised implicitly by periodic tests with whole-second periods.',
  [TC], [('timespecadd, timespecsub, timespeccmp, useconds_t2timespec', TC), ('clockgettime', TC)], (), ['timespecadd', 'timespecsub', 'timespeccmp', 'useconds_t2timespec', 'clockgettime'])
p('C30', 'A periodic task wakes on an exact, drift-free schedule',
  'Once started at time s, a task\'s k-th job is released at exactly s + k periods (absolute times, whatever the jobs\' own duration and the clock\'s value), runs exactly once per release with the task\'s payload and never before its release time; changing the period takes effect for the next release not yet scheduled.',
  ['inputs', 'schedules', 'fault_sequences'], 'every start time, period, sequence of clock readings, job durations and wake-ups (late, spurious)',
  'The monitor tests only count a few iterations of second-long periods.',
  [TK, TC], [('absolute pthread_cond_timedwait on an accumulated next release', TK)], [('next', 'absolute time of the next release', TK)], ['pthread_cond_timedwait', 'run'])
p('C31', 'A task runs only between enable and disable, and always stops when asked',
  'A task never runs its body before it is enabled nor after it has seen a disable request; after a disable request it runs at most the job already released and then terminates, reporting its stop, whether the request comes before start, between releases or during a job; it stops for no other reason.',
  ['schedules', 'fault_sequences', 'histories'], 'every placement of enable and disable requests relative to the task\'s steps, and every spurious wake-up',
  'Tests enable once and disable once after several seconds.',
  [TK, PM], [('start trap on the task status', TK), ('abort check after each wait', TK)], [('st', 'task status', TK)], ['enable', 'disable', 'join', 'run'])
p('C32', 'Monitor objects report and apply their settings faithfully',
  'A monitor reports the period given at construction or by the last setPeriod, is created with its own body and the requested scheduling policy, priority and period, is not running until enabled and started, and each underlying call is made once; enable and disable return success, and join does when the underlying call does (it reports failure otherwise, also when the thread could not be created); its periodic body is its own run method and nothing else.',
  ['inputs', 'histories', 'fault_sequences'], 'every period, policy, priority and order of calls',
  'Tests check getPeriod-style accessors once with fixed values.',
  [PM, TK], [('RTML_monitor constructors, loop, accessors', PM)], (), ['getPeriod', 'setPeriod', 'isRunning', 'enable', 'disable', 'join'])
p('C33', 'Nested formulas are evaluated compositionally',
  'For every nesting of the operators, connectives and propositions, evaluating the generated formula gives the verdict obtained by applying each operator\'s definition to the verdicts of its operands at each event of the trace.',
  ['inputs', 'histories', 'programs'], 'every trace up to the bound, cursor position and time; nestings of depth two and three of representative operators',
  'A few fixed nestings on fixed traces.', [FM, TR], [('cursor and time hand-over from operator to operand', FM)], (), ['until_less', 'since_less', 'always_less'])
p('C34', 'No use of the API reads or writes outside the buffer',
  'Whatever values are passed to set_cursor, read, write and set, and however pushes, synchronizations, cursor moves and evaluations are interleaved, no operation accesses memory outside the objects involved; set_cursor accepts exactly the indices of existing slots.',
  ['inputs', 'histories'], 'all 64-bit cursor and index arguments, all call sequences up to the bound',
  'Tests pass in-range values only and do not run under a memory checker.',
  [CB, RD, TR], [('bounds test in read', CB), ('set_cursor validation', TR)], (), ['set_cursor', 'read', 'read_next', 'read_previous'])
p('C35', 'Buffer and trace semantics do not depend on the target variant',
  'The hardware-synthesis and RISC-V variants of the library give the same results as the x86-64 one for every single-threaded use of buffer, reader, trace and formulas.',
  ['configurations', 'inputs', 'histories'], 'the __HW__ and __riscv variants, every operation sequence and trace up to the bound',
  'The test suite is only built for x86-64 here; the other variants are never compiled.',
  [AT, CB, WR, RD, TC], [('variant macros _bottom/_top/ATOMIC_TRIPLE', AT)], (), ['push', 'pull', 'pop', 'state', 'until_less'])
with open(OUT, 'w') as f:
    for r in rows: f.write(json.dumps(r, ensure_ascii=False) + '\n')
