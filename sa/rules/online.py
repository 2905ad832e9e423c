"""The loop that serves a connection: O01 what is queued is written whole and in order, and the task sleeps only if something will wake it"""
import re

from _base import *
from tree import val3
import terms

LOOP = 'protocols::mqtt::online_loop::OnlineLoop'
IO = r'::poll_(write|read|flush|ready|shutdown|next)$|::poll$'
CALLS = IO + r'|wake_by_ref$|::push_front$|::pop_front$|::start_send$|::handle_\w+$|::extend$|::encode$|::apply_action$|::after_handle_packet$|::build_state$|::extend_from_slice$|::append$'


def is_out(v):
    """is the queue the one of packets for the client of this connection (the other one belongs to an entry of broadcast_packets)"""
    t = str(v)
    i, j = t.find('write_packets'), t.find('broadcast_packets')
    return i >= 0 and (j < 0 or i < j)


def outcome(t):
    """(name of the poll call, part) of a term whose discriminant decides it"""
    x = t.a[0]
    if x.op == 'fld' and x.a[1] == ('f', 'Ready', '0'):
        y = x.a[0]
        part = 'result'
    else:
        y, part = x, 'ready'
    if y.op == 'poll':
        return 'poll', part
    if y.op == 'call':
        return short(str(y.a[0])), part
    return None, None


class Loop(Rule):
    """st.ps: sorted set of labels (what the path has to make good for, and what will wake it)"""
    init = ()
    opaque = re.compile(r'::handle_\w+$|::poll$|::apply_action$|::after_handle_packet$|::build_state$|::disconnected$')

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = {}

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    # -- labels
    def put(self, st, *ls):
        st.ps = tuple(sorted(set(st.ps) | set(ls), key=str))

    def cut(self, st, *ks):
        st.ps = tuple(x for x in st.ps if (x[0] if isinstance(x, tuple) else x) not in ks)

    def get(self, st, k):
        return next((x for x in st.ps if isinstance(x, tuple) and x[0] == k), None)

    def F(self, st):
        return lambda: [' '.join(str(x)[:100] for x in st.ps)] + facts_text(st)

    def settle(self, st):
        """something new is taken up, or the task goes to sleep: what was taken before must be in its place"""
        F = self.F(st)
        p = self.get(st, 'popped')
        self.ctx.require(p is None, 'lost:packet', 'a packet taken from the queue is neither written nor put back', F)
        self.cut(st, 'popped')

    def resolve(self, E, st):
        """outcome of a pop, once it is known"""
        k = self.get(st, 'taken')
        if k is not None:
            d = E.decide(st, lt(Int(0), length(k[1])))
            if d is not None:
                self.cut(st, 'taken')
                if d:
                    self.put(st, ('popped', terms.project(k[1], ('i', Int(0)))))
        k = self.get(st, 'mtaken')
        if k is not None:
            d = E.decide(st, lt(Int(0), length(k[1])))
            if d is not None:
                self.cut(st, 'mtaken')
                if d:
                    self.put(st, ('msg', terms.project(k[1], ('i', Int(0)))))
        p = self.get(st, 'popped')
        if p is not None:
            v = E.value(st, discr(p[1]))
            if v is not None and v.op == 'int' and v.a[0] == 1:
                self.cut(st, 'popped')                  # the rest of a packet: judged when it is written

    # -- events
    def on_call(self, E, st, c):
        name = next((n for n in (c.res, c.name) if n and re.search(CALLS, n)), None)
        if name is None:
            return None
        what = short(name)
        ctx, F = self.ctx, self.F(st)
        raw = E.vals(st, c)
        vals = [E.deep(st, x) for x in raw]
        self.resolve(E, st)
        if what != 'push_front':
            ctx.require('again' not in st.ps, 'lost:pending', 'bytes that could not be written are not put back', F)
            self.cut(st, 'w', 'ready', 'wpend', 'again')
        if what == 'wake_by_ref':
            self.put(st, 'wake')
        elif what == 'poll_write':
            self.settle(st)
            self.count('writes')
            w = self.get(st, 'w')
            self.cut(st, 'left')
            d = vals[2]
            base, lo = (d.a[0], d.a[1][1]) if d.op == 'fld' and d.a[1][0] == 's' else (d, Int(0))
            self.put(st, ('w', base, lo))
            if True:
                src = [x for x in walk(base) if x.op == 'fld' and x.a[1][1] in ('Dynamic', 'Fixed2', 'Fixed4')]
                if src and base in src:
                    rest = [x for x in walk(base) if x.op == 'fld' and x.a[1] == ('f', 'Data', '0')]
                    if rest:
                        self.count('rest')
                        ctx.require(lo is fld(rest[0], '1'), 'rest', 'the rest of a packet is not written from where the last write ended', F)
        elif what == 'poll_shutdown':
            self.count('closes')
            ctx.require('left' not in st.ps, 'close', 'the connection is closed with bytes left to write', F)
            self.settle(st)
        elif what == 'pop_front':
            self.settle(st)
            if is_out(vals[0]):
                self.count('packets taken')
                self.put(st, ('taken', vals[0]))
            else:
                m = self.get(st, 'msg')
                ctx.require(m is None, 'lost:message', 'a message for another client taken from its queue is neither sent nor put back', F)
                self.cut(st, 'msg')
                self.count('messages taken')
                self.put(st, ('mtaken', vals[0]))
        elif what == 'encode':
            p = self.get(st, 'popped')
            if p is not None and vals[0] is fld(p[1], 'Packet.0'):
                self.cut(st, 'popped')
                self.put(st, ('encoded', vals[0]))
                self.count('encoded')
        elif what in ('extend', 'extend_from_slice', 'append'):
            p = self.get(st, 'encoded')
            if p is not None and any(x.op == 'call' and any(y is p[1] for y in walk(x)) for y0 in vals[1:] for x in walk(y0)):
                self.cut(st, 'encoded')
        elif what == 'push_front':
            self.push_front(E, st, raw, vals)
        elif what == 'start_send':
            v = vals[1]
            m = self.get(st, 'msg')
            if v.op == 'agg' and len(v.a[3]) == 2:
                self.count('sent')
                if m is not None and understood(v.a[3][1][1]):
                    ctx.require(v.a[3][1][1] is m[1], 'sent:other', 'another message is sent than was taken from the queue', F)
                me = v.a[3][0][1]
                ctx.require(me.op in ('join', 'phi') or 'client_id(' in str(me), 'sent:from', 'a message is sent in the name of another client', F)
                self.cut(st, 'msg')
            elif any(x.op == 'call' and str(x.a[0]).endswith('build_state') for x in walk(v)):
                self.put(st, 'state sent')
                self.count('handover')
        elif what == 'handle_packet':
            ctx.require('handled' not in st.ps, 'after packet', 'what a packet has queued for its client is not fetched before the next packet is read', F)
            self.count('packets')
            self.put(st, 'handled')
        elif what == 'after_handle_packet':
            self.cut(st, 'handled')
        elif what == 'handle_request':
            self.put(st, 'hook')
            self.count('hooks')
        elif what == 'handle_control':
            self.count('control')
        return None

    def push_front(self, E, st, raw, vals):
        ctx, F = self.ctx, self.F(st)
        if not is_out(vals[0]):
            m = self.get(st, 'msg')
            if m is not None and understood(vals[1]):
                ctx.require(vals[1] is m[1], 'kept:other', 'another message is put back than was taken from the queue', F)
            self.cut(st, 'msg')
            return
        p = fld(vals[1], 'Data.0')
        w = self.get(st, 'w')
        if w is None or vals[1].op != 'agg' or vals[1].a[2] != 'Data':
            return
        self.count('put back')
        data, idx = fld(p, '0'), fld(p, '1')
        data = fld(data, 'Dynamic.0') if data.op == 'agg' else data
        if data is not w[1]:
            if understood(data) and understood(w[1]):
                ctx.require(False, 'back:data', 'other bytes are put back than those that were to be written', F)
            return
        more = terms.add(idx, w[2], -1)
        if 'wpend' in st.ps:
            ctx.require(more is Int(0), 'back:pending', 'bytes that were not written are skipped', F)
        elif 'ready' in st.ps:
            n = [x for x in walk(more) if x.op == 'call' and str(x.a[0]).endswith('poll_write')]
            ctx.require(more.op == 'fld' and bool(n), 'back:partial', 'after a partial write the rest does not begin behind the bytes written', F)
            self.put(st, 'left')
        self.cut(st, 'again', 'w', 'ready', 'wpend')

    def on_assume(self, E, st, t, val):
        if t.op == 'discr':
            what, part = outcome(t)
            one = val is Int(1) or val is TRUE or val is True
            if what is None or not what.startswith('poll') and what != 'start_send':
                pass
            elif part == 'ready':
                if one:
                    self.put(st, 'waits')
                if what == 'poll_write':
                    self.put(st, *(('wpend', 'again') if one else ('ready',)))
                if what == 'poll' and not one:
                    self.cut(st, 'hook')
            else:
                if what in ('poll_ready', 'poll_flush', 'start_send') and one:
                    self.cut(st, 'msg')                     # the receiver is gone
                    if 'state sent' in st.ps:
                        self.put(st, 'state lost')
                if what == 'poll_flush' and not one and 'state sent' in st.ps:
                    self.put(st, 'state flushed')
        if t.op == 'fld' and t.a[1][2] == '1' and 'session_state_sender' in str(t) and val in (True, TRUE):
            self.put(st, 'state sent')                      # in an earlier poll: see on_write
        if 'left' in st.ps:
            for x in walk(t):
                if x.op == 'len' and is_out(x.a[0]) and E.decide(st, lt(Int(0), x)) is False:
                    return False                            # something was put back
        self.resolve(E, st)
        return True

    def on_write(self, E, st, root, path, val, span):
        F = self.F(st)
        last = fields(path)[-1:] or [y.a[1][2] for y in walk(root[1]) if y.op == 'fld'][:1] if root[0] == 'S' else []
        if last == ['hook_fut']:
            v = E.deep(st, val)
            if v.op == 'agg' and v.a[2] == 'Some':
                self.put(st, 'parked')
        if last == ['session_state_sender']:
            v = fld(E.deep(st, val), 'Some.0', '1')
            if val3(E, st, v) is True:
                self.ctx.require('state sent' in st.ps, 'handover', 'the state of a session counts as sent although it was not', F)
        if last == ['taken_over']:
            v = val3(E, st, E.deep(st, val))
            if v is True:
                self.count('taken over')
                self.ctx.require('state sent' in st.ps and 'state flushed' in st.ps and 'state lost' not in st.ps, 'takeover',
                                 'a session counts as taken over although its state was not handed on', F)
                self.put(st, 'over')

    def on_ret0(self, E, st, v):
        v = E.deep(st, v)
        ctx, F = self.ctx, self.F(st)
        if v.op != 'agg' or not str(v.a[0]).endswith('Poll'):
            return
        if v.a[2] == 'Ready':
            self.count('ends')
            return
        self.count('sleeps')
        self.settle(st)
        L = st.ps
        wake = 'wake' in L
        ctx.require(wake or 'waits' in L, 'asleep', 'the task sleeps although nothing will wake it', F)
        ctx.require(wake or 'left' not in L, 'stall:write', 'the task sleeps with bytes to write that were not refused: nothing wakes it when there is room again', F)
        ctx.require('again' not in L, 'lost:pending', 'bytes that could not be written are not put back', F)
        ctx.require('hook' not in L or 'parked' in L or 'served' in L, 'hook lost', 'a hook that is not finished is dropped', F)
        ctx.require(self.get(st, 'msg') is None, 'lost:message', 'a message for another client taken from its queue is neither sent nor put back', F)

    def on_return(self, E, st, v):
        self.count('paths')


def o01(ctx):
    ps = [p for p in ctx.P.bodies if LOOP in p and p.endswith('::poll')]
    if not ps:
        ctx.require(False, 'anchor:OnlineLoop::poll', 'the loop that serves a connection is not found', lambda: [])
        return
    r = Loop(ctx)
    E = r.E = Engine(ctx.P, r, join_limit=24)
    me = sym(argnames(ctx.P, ps[0])[0])
    E.run(ps[0], [me] + [sym(x) for x in argnames(ctx.P, ps[0])[1:]])
    ctx.engine(E)
    for k, n in sorted(r.n.items()):
        ctx.counts[k] = n
    for k in ('writes', 'packets taken', 'messages taken', 'encoded', 'put back', 'sent', 'handover', 'packets', 'hooks', 'control', 'taken over', 'sleeps', 'closes'):
        ctx.floor(k, r.n.get(k, 0), 1)


RULES = {'O01': o01}
