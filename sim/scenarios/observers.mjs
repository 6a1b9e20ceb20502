// Components that observe something outside of them: signals, external stores, deferred
// values, transitions, effect events, imperative handles. Keyed lists of such components
// come, go, move and look at something else, while what they observe changes at any
// moment: between host tasks, within events, renders, effects, cleanups and microtasks.
import { Digest } from '../rng.mjs';

const EVENTS = ['click', 'mousemove', 'input'];
const AT = ['render', 'effect', 'cleanup', 'micro', 'commit'];

class Boom extends Error {}

const show = (v) => (v !== null && typeof v === 'object' ? JSON.stringify(v) : String(v));

export default class Observers {
  constructor(sim) {
    this.sim = sim;
    this.cfg = sim.cfg;
    this.recs = new Set();
    this.armed = [];
    this.stateDigests = new Set();
    this.inFlight = 0;
    this.serial = 0;
    this.nextId = 1;
    this.values = 0;
    this.transitions = [];
    this.rejections = 0;
    this.fns = []; // values that are functions
    this.shared = new Set();
  }

  fail(cls, msg) {
    this.sim.fail(cls, msg);
  }

  // ---- set-up ---------------------------------------------------------------------------

  setup() {
    const { sim, cfg } = this;
    const { core, signal } = sim.lib;
    const S = this;
    const html = core.html;
    const adapter = new core.DOMAdapter(sim.document);
    const requestCommit = adapter.requestCommit.bind(adapter);
    adapter.requestCommit = (callback) => {
      this.inFlight++;
      return requestCommit(() => {
        this.inFlight--;
        callback();
      });
    };
    this.runtime = new core.Runtime(adapter);
    this.item = (id, a, b) => html`<li>${id}|${a}|${b}</li>`;
    this.list = (items) => html`<ul><${items}></ul>`;
    this.App = core.createComponent(function App({ root }) {
      const [view, setView] = this.useState(() => root.view);
      root.setView = setView;
      this.useEffect(() => {
        root.committed = view;
      });
      return S.list(view.map((it) => S.Item({ it, root }).withKey(it.id)));
    });
    this.Item = core.createComponent(
      function Item(props) {
        return S.renderItem(this, props);
      },
      { arePropsEqual: (a, b) => a.it === b.it },
    );

    this.listener = (event) => {
      const fn = this.eventFn;
      this.eventFn = null;
      if (fn) {
        try {
          fn(event);
        } catch (error) {
          this.onHostError(error);
        }
      }
    };
    for (const t of EVENTS) sim.document.addEventListener(t, this.listener, true);

    // what can be observed
    const { Atom, Computed, Derivable } = signal;
    this.atoms = [new Atom(0), new Atom(0), new Atom(0)];
    this.vals = [0, 0, 0];
    const store = Derivable.from({ a: 0, o: { b: 0 } });
    this.dv = { a: 0, o: { b: 0 } };
    this.leaves = [store.get('a'), store.get('o').get('b')];
    const [a0, a1, a2] = this.atoms;
    const half = a0.map((x) => x >> 1);
    this.signals = [
      { s: a0, get: () => this.vals[0], on: [0] },
      { s: a1, get: () => this.vals[1], on: [1] },
      { s: half, get: () => this.vals[0] >> 1, on: [0] },
      { s: new Computed((x, y) => `${x}+${y}`, [half, a2]), get: () => `${this.vals[0] >> 1}+${this.vals[2]}`, on: [0, 2] },
      { s: this.leaves[0], get: () => this.dv.a, on: [3] },
      { s: this.leaves[1], get: () => this.dv.o.b, on: [4] },
      { s: store.get('o').map((o) => `o${o.b}`), get: () => `o${this.dv.o.b}`, on: [4] },
    ];

    this.stores = [0, 1].map((i) => {
      const st = { i, value: 0, subs: new Set(), given: 0, released: 0 };
      const subscribe = (eager) => (fn) => {
        st.given++;
        const token = { fn, live: true };
        st.subs.add(token);
        this.fire('subscribe', null);
        if (eager) fn();
        return () => {
          if (!token.live) this.fail('ledger', `a subscription of store ${i} was released twice`);
          token.live = false;
          st.released++;
          st.subs.delete(token);
        };
      };
      st.subscribes = [subscribe(false), subscribe(true), subscribe(false)];
      st.gets = [() => st.value, () => st.value % 2, () => `s${i}:${st.value >> 1}`];
      return st;
    });

    this.refs = [0, 1, 2].map(() => new core.Ref(null));
    this.fnRefs = [0, 1].map((i) => {
      const f = { i, current: null, fn: null };
      f.fn = (handle) => {
        f.current = handle;
        return () => {
          if (f.current === handle) f.current = null;
        };
      };
      return f;
    });

    this.roots = [];
    for (let i = 0; i < cfg.roots; i++) {
      const el = sim.document.createElement('main');
      sim.document.body.appendChild(el);
      const root = { i, el, view: Object.freeze([]), committed: null, root: new core.DOMRoot(el, this.runtime), setView: null };
      this.roots.push(root);
      this.quiet(root.root.render(this.App({ root })));
    }
  }

  dispose() {
    for (const t of EVENTS) this.sim.document.removeEventListener(t, this.listener, true);
  }

  // ---- components -----------------------------------------------------------------------

  renderItem(context, { it, root }) {
    const { sim } = this;
    const rec = context.useMemo(() => this.newRec(it, root), []);
    rec.renders++;
    const serial = ++this.serial;
    if (rec.state === 'gone') this.fail('dead', `the unmounted component ${it.id} is rendered`);
    this.fire('render', it.id);
    const now = { it, serial };
    let out;
    switch (it.kind) {
      case 'sig':
        out = this.renderSignals(context, rec, it);
        break;
      case 'ext':
        out = this.renderStore(context, rec, it, now);
        break;
      case 'def':
        out = this.renderDeferred(context, rec, it, now);
        break;
      case 'tra':
        out = this.renderTransition(context, rec, it, now);
        break;
      case 'eev':
        out = this.renderEvent(context, rec, it, now);
        break;
      case 'imp':
        out = this.renderHandle(context, rec, it, now);
        break;
    }
    context.useEffect(() => {
      rec.state = 'mounted';
      this.recs.add(rec);
      return () => {
        rec.state = 'gone';
        this.recs.delete(rec);
        this.fire('cleanup', it.id);
      };
    }, []);
    context.useEffect(() => {
      const before = rec.committed;
      rec.committed = now;
      rec.commits++;
      this.onCommit(rec, before, now);
      this.fire('effect', it.id);
    });
    this.fire('throw', it.id);
    if (this.armed.some((a) => a.at === 'micro' && a.id === it.id)) queueMicrotask(() => this.fire('micro', it.id));
    void sim;
    return this.item(it.id, ...out);
  }

  newRec(it, root) {
    return { id: it.id, root, kind: it.kind, state: 'new', renders: 0, commits: 0, committed: null, fns: [], x: [], handles: 0 };
  }

  renderSignals(context, rec, it) {
    const { LocalAtom, LocalComputed } = this.sim.lib.signal;
    const first = this.signals[it.s].s;
    switch (it.form) {
      case 0:
        return [show(context.use(first)), ''];
      case 1:
        return [first, ''];
      case 2:
        return [show(context.use(first)), this.signals[it.s2].s];
      case 3: {
        const atom = context.use(LocalAtom(100));
        rec.atom ??= { s: atom, value: 100 };
        if (rec.atom.s !== atom) this.fail('local', `the local atom of ${it.id} was made again`);
        const computed = context.use(LocalComputed((x, y) => `${x}&${y}`, [first, atom]));
        return [show(context.use(computed)), ''];
      }
      case 4: {
        const x = context.use(first);
        const y = context.use(this.signals[it.s2].s);
        return [show(x), show(y)];
      }
    }
  }

  renderStore(context, rec, it, now) {
    const { SyncExternalStore } = this.sim.lib.hooks;
    const st = this.stores[it.st];
    now.subscribe = st.subscribes[it.sub];
    now.get = st.gets[it.get];
    const value = context.use(SyncExternalStore(now.subscribe, now.get));
    return [show(value), ''];
  }

  renderDeferred(context, rec, it, now) {
    const { DeferredValue } = this.sim.lib.hooks;
    const options = {};
    // Values may be functions, which are not to be taken for updater functions.
    const wrap = (v) => (it.fn ? (this.fns[v] ??= () => this.fail('deferred', `the value ${v} of ${it.id}, which is a function, was called`)) : v);
    if (it.init) options.initialValue = it.fn ? () => wrap(0) : 0;
    if (it.prio) options.priority = it.prio;
    const v = wrap(it.v);
    let d = context.use(it.init || it.prio ? DeferredValue(v, options) : DeferredValue(v));
    if (it.fn) d = this.fns.indexOf(d);
    if (rec.renders === 1 && d !== (it.init ? 0 : it.v)) this.fail('deferred', `${it.id} shows ${d} at first`);
    rec.given ??= new Set(it.init ? [0] : []);
    rec.given.add(it.v);
    if (!rec.given.has(d)) this.fail('deferred', `${it.id} shows ${d}, which it was never given`);
    now.v = it.v;
    now.d = d;
    return [it.v, d];
  }

  renderTransition(context, rec, it, now) {
    const { Transition } = this.sim.lib.hooks;
    const [pending, start] = context.use(Transition());
    const [x, setX] = context.useState(() => []);
    rec.start = start;
    rec.setX = setX;
    now.pending = pending;
    now.x = x;
    return [pending, x.join(',')];
  }

  renderEvent(context, rec, it, now) {
    const { EffectEvent } = this.sim.lib.hooks;
    const make = () => {
      const token = ++this.serial;
      const callback = function (...args) {
        return { token, self: this, args };
      };
      callback.token = token;
      return callback;
    };
    const callback = it.memo ? context.useMemo(make, [it.n]) : make();
    now.callback = callback;
    const fn = context.use(EffectEvent(callback));
    rec.fns.push(fn);
    if (rec.fns.length > 6) rec.fns.splice(1, 1);
    if (rec.committed) this.callFn(rec, fn, 'during a render', rec.committed);
    context.useEffect(() => {
      this.callFn(rec, fn, 'by an effect', now);
      for (const f of rec.fns) this.callFn(rec, f, 'by an effect', now);
      return () => {};
    });
    return [it.n, ''];
  }

  callFn(rec, fn, when, now) {
    this.sim.probe('call ' + when);
    const self = {};
    const r = fn.call(self, 1, rec);
    if (r.token !== now.callback.token) this.fail('event', `called ${when}, the effect event of ${rec.id} runs ${r.token > now.callback.token ? 'an uncommitted' : 'an older'} callback`);
    if (r.self !== self || r.args.length !== 2 || r.args[1] !== rec) this.fail('event', `the effect event of ${rec.id} does not pass on what it is called with`);
  }

  renderHandle(context, rec, it, now) {
    const { ImperativeHandle } = this.sim.lib.hooks;
    const ref = it.r === null ? null : it.r >= 10 ? this.fnRefs[it.r - 10].fn : this.refs[it.r];
    now.ref = ref;
    context.use(
      ImperativeHandle(
        ref,
        () => {
          rec.handles++;
          return (rec.handle = { id: rec.id, dep: it.dep, serial: ++this.serial });
        },
        it.every ? undefined : [it.dep],
      ),
    );
    return [it.dep, ''];
  }

  /** What was armed to happen at this point. */
  fire(at, id) {
    for (let i = 0; i < this.armed.length; i++) {
      const a = this.armed[i];
      if (a.at !== at || (a.id !== null && id !== null && a.id !== id)) continue;
      this.armed.splice(i, 1);
      if (at === 'throw') {
        this.sim.fault('component throws');
        throw new Boom('render of ' + id);
      }
      this.sim.fault('write in ' + at);
      for (const w of a.writes) this.write(w);
      return;
    }
  }

  onCommit(rec, before, now) {
    const { id } = rec;
    switch (rec.kind) {
      case 'def':
        if (before && now.d < before.d) this.fail('deferred', `${id} goes back from ${before.d} to ${now.d}`);
        if (now.d > now.v) this.fail('deferred', `${id} shows ${now.d} although it was given ${now.v}`);
        break;
      case 'tra':
        rec.x = now.x;
        for (const t of this.transitions) {
          if (t.rec === rec && now.pending) t.pendingSeen = true;
        }
        break;
      case 'imp': {
        // Once all of this commit is done.
        queueMicrotask(() => this.findShared());
        const expect = (before === null ? rec.commits === 1 : now.it.every || before.it.dep !== now.it.dep || before.ref !== now.ref) && now.ref !== null;
        const made = rec.handles - (rec.handlesSeen ?? 0);
        rec.handlesSeen = rec.handles;
        // After a rendering that was given up it may be made again.
        if (made !== (expect ? 1 : 0) && (made === 0 || !this.cfg.faults)) this.fail('handle', `the handle of ${id} was made ${made} times instead of ${expect ? 1 : 0}`);
        break;
      }
    }
  }

  // ---- operations -----------------------------------------------------------------------

  gen(rng) {
    const { cfg } = this;
    const kinds = cfg.kinds;
    const has = (k) => kinds.includes(k);
    const op = rng.weighted({
      view: 5,
      write: has('sig') || has('ext') ? 6 : 0,
      event: has('sig') || has('ext') ? 1.5 : 0,
      arm: has('sig') || has('ext') ? 3 : 0,
      burst: has('sig') ? 2 : 0,
      start: has('tra') ? 4 : 0,
      settle: has('tra') ? 4 : 0,
      urgent: has('tra') ? 1.5 : 0,
      call: has('eev') ? 4 : 0,
      fail: cfg.faults ? 1.2 : 0,
      force: 0.5,
    });
    const writes = () => Array.from({ length: 1 + rng.int(2) }, () => this.genWrite(rng));
    switch (op) {
      case 'view':
        return {
          op,
          root: rng.int(3),
          edits: Array.from({ length: 1 + rng.int(3) }, () => this.genEdit(rng)),
          o: rng.weighted({ none: 3, sync: 1.5, tr: 1, 'user-blocking': 1, 'user-visible': 1, background: 1.5 }),
          again: rng.chance(0.15),
        };
      case 'write':
        return { op, writes: writes(), micro: rng.chance(0.25) };
      case 'event':
        return { op, type: rng.pick(EVENTS), writes: writes() };
      case 'arm':
        return { op, at: rng.pick([...AT, ...(has('ext') ? ['subscribe'] : [])]), n: rng.int(20), any: rng.chance(0.4), writes: writes() };
      case 'burst':
        return { op, writes: Array.from({ length: 2 + rng.int(4) }, () => this.genWrite(rng)) };
      case 'start':
        return { op, n: rng.int(20), mode: rng.pick(['sync', 'sync', 'async', 'async', 'reject', 'throw']), targets: Array.from({ length: rng.int(4) }, () => rng.int(20)), at: rng.pick(['task', 'task', 'event']) };
      case 'settle':
        return { op, n: rng.int(20), more: Array.from({ length: rng.int(3) }, () => rng.int(20)) };
      case 'urgent':
      case 'force':
        return { op, n: rng.int(20), sync: rng.chance(0.3) };
      case 'call':
        return { op, n: rng.int(20), k: rng.int(8), at: rng.pick(['task', 'event']) };
      case 'fail':
        return { op, n: rng.int(20) };
    }
  }

  genWrite(rng) {
    return { t: this.cfg.kinds.includes('ext') ? 'ext' : 'sig', n: rng.int(5), d: 1 + rng.int(3), back: rng.chance(0.15) };
  }

  genEdit(rng) {
    const { cfg } = this;
    const e = rng.weighted({ add: 3, remove: 1.5, move: 1, change: 3, swap: cfg.kinds.includes('imp') ? 2 : 0 });
    const spec = {
      kind: rng.pick(cfg.kinds), s: rng.int(7), s2: rng.int(7), form: rng.int(5), st: rng.int(2), sub: rng.int(3), get: rng.int(3),
      init: rng.chance(0.4), prio: rng.pick([null, null, 'background', 'user-blocking']), n: rng.int(3), memo: rng.chance(0.5),
      r: rng.pick([null, 0, 1, 2, 0, 1, 2, 10, 11]), dep: rng.int(3), every: rng.chance(0.2), fn: rng.chance(0.3),
    };
    return { e, n: rng.int(20), m: rng.int(20), spec };
  }

  /** A write to something observed; every write is a new value, or one that was there before. */
  write(w) {
    const v = (x) => (w.back ? Math.max(0, x - 1) : x + w.d);
    if (w.t === 'ext') {
      const st = this.stores[w.n % this.stores.length];
      const next = v(st.value);
      st.value = next;
      for (const sub of [...st.subs]) sub.fn();
      return;
    }
    this.touched = true;
    if (w.n < 3) {
      this.vals[w.n] = v(this.vals[w.n]);
      this.atoms[w.n].value = this.vals[w.n];
    } else if (w.n === 3) {
      this.dv.a = v(this.dv.a);
      this.leaves[0].value = this.dv.a;
    } else {
      this.dv.o.b = v(this.dv.o.b);
      this.leaves[1].value = this.dv.o.b;
    }
  }

  pick(list, n) {
    return list.length > 0 ? list[n % list.length] : null;
  }

  ofKind(kind) {
    return [...this.recs].filter((r) => r.kind === kind);
  }

  exec(op) {
    const { sim } = this;
    this.burst = null;
    switch (op.op) {
      case 'view':
        this.execView(op);
        break;
      case 'write':
        if (op.micro) {
          const [first, ...rest] = op.writes;
          this.write(first);
          queueMicrotask(() => queueMicrotask(() => rest.forEach((w) => this.write(w))));
        } else op.writes.forEach((w) => this.write(w));
        break;
      case 'event':
        this.inEvent(op.type, () => op.writes.forEach((w) => this.write(w)));
        break;
      case 'arm': {
        if (this.armed.length > 4) this.armed.shift();
        const ids = this.roots.flatMap((r) => r.view.map((it) => it.id));
        this.armed.push({ at: op.at, id: op.any ? null : this.pick(ids, op.n), writes: op.writes });
        break;
      }
      case 'burst': {
        if (sim.host.candidates().length > 0 || this.inFlight > 0 || this.armed.length > 0) break;
        this.burst = { before: new Map([...this.recs].map((r) => [r, r.renders])), text: new Map([...this.recs].map((r) => [r, this.expected(r)])) };
        const local = this.ofKind('sig').filter((r) => r.atom);
        for (const w of op.writes) {
          this.write(w);
          if (local.length > 0 && w.d === 2) {
            const r = local[w.n % local.length];
            r.atom.s.value = ++r.atom.value;
          }
        }
        sim.probe('burst at rest');
        break;
      }
      case 'start':
        this.execStart(op);
        break;
      case 'settle': {
        const t = this.pick(this.transitions.filter((t) => t.resolve), op.n);
        if (t === null) break;
        const { resolve, reject } = t;
        t.resolve = null;
        this.add(t, op.more);
        t.done = true;
        if (t.mode === 'reject') {
          sim.fault('transition action rejects');
          reject(new Error('rejected action'));
        } else resolve();
        break;
      }
      case 'urgent': {
        const rec = this.pick(this.ofKind('tra'), op.n);
        const v = 'u' + ++this.values;
        if (rec) this.quiet(rec.setX((x) => [...x, v], op.sync ? { flushSync: true } : {}));
        break;
      }
      case 'force': {
        // The whole list again, with other objects.
        const root = this.pick(this.roots, op.n);
        if (root.setView) this.setView(root, root.view.map((it) => Object.freeze({ ...it })), op.sync ? { flushSync: true } : {});
        break;
      }
      case 'call': {
        const rec = this.pick(this.ofKind('eev'), op.n);
        if (rec === null) break;
        const fn = rec.fns[op.k % rec.fns.length];
        if (op.at === 'event') this.inEvent('click', () => this.callFn(rec, fn, 'by an event', rec.committed));
        else this.callFn(rec, fn, 'by a timer', rec.committed);
        break;
      }
      case 'fail': {
        const ids = this.roots.flatMap((r) => r.view.map((it) => it.id));
        if (ids.length > 0 && !this.armed.some((a) => a.at === 'throw')) this.armed.push({ at: 'throw', id: this.pick(ids, op.n) });
        break;
      }
    }
  }

  inEvent(type, fn) {
    const { document, window } = { document: this.sim.document, window: this.sim.env.window };
    this.eventFn = fn;
    document.body.dispatchEvent(new window.Event(type, { bubbles: true }));
    this.eventFn = null;
  }

  quiet(handle) {
    handle?.finished?.catch((error) => {
      if (!this.isBoom(error)) this.fail('threw', `an update was rejected: ${error?.stack ?? error}`);
      this.rejections++;
    });
    return handle;
  }

  isBoom(error) {
    for (let e = error; e; e = e.cause) if (e instanceof Boom) return true;
    return false;
  }

  setView(root, view, options) {
    root.view = Object.freeze(view);
    this.quiet(root.setView(root.view, options));
  }

  execView({ root: n, edits, o, again }) {
    const { sim } = this;
    const root = this.pick(this.roots, n);
    if (!root.setView) return;
    let view = [...root.view];
    const used = () => new Set(this.roots.flatMap((r) => (r === root ? view : r.view)).filter((it) => it.kind === 'imp' && it.r !== null).map((it) => it.r));
    for (const { e, n, m, spec } of edits) {
      const i = view.length > 0 ? n % view.length : -1;
      switch (e) {
        case 'add': {
          if (view.length >= this.cfg.items) break;
          const it = { ...spec, id: `${spec.kind}${this.nextId++}`, v: ++this.values };
          if (it.kind === 'imp' && it.r !== null && used().has(it.r)) it.r = null;
          view.splice(m % (view.length + 1), 0, Object.freeze(it));
          break;
        }
        case 'remove':
          if (i >= 0) view.splice(i, 1);
          break;
        case 'move':
          if (i >= 0) view.splice(m % view.length, 0, view.splice(i, 1)[0]);
          break;
        case 'swap': {
          // two handles exchange their references
          const imps = view.filter((it) => it.kind === 'imp');
          if (imps.length < 2) break;
          const a = imps[n % imps.length];
          const b = imps[m % imps.length];
          if (a === b) break;
          view = view.map((it) => (it === a ? Object.freeze({ ...a, r: b.r }) : it === b ? Object.freeze({ ...b, r: a.r }) : it));
          break;
        }
        case 'change': {
          if (i < 0) break;
          const old = view[i];
          const it = { ...old, s: spec.s, s2: spec.s2, st: spec.st, sub: spec.sub, get: spec.get, n: spec.n, dep: spec.dep, v: ++this.values };
          if (old.kind === 'imp' && spec.r !== old.r && (spec.r === null || !used().has(spec.r))) it.r = spec.r;
          view[i] = Object.freeze(it);
          break;
        }
      }
    }
    const options = o === 'sync' ? { flushSync: true } : o === 'none' ? {} : o === 'tr' ? { transition: this.runtime.nextTransition() } : { priority: o };
    this.setView(root, view, options);
    if (again) this.quiet(root.root.render(this.App({ root })));
    if (o === 'sync' && this.inFlight === 0) this.urgentView = root;
    void sim;
  }

  // ---- transitions ----------------------------------------------------------------------

  add(t, targets) {
    const group = { value: 'g' + ++this.values, targets: [] };
    for (const n of targets) {
      const rec = this.pick(this.ofKind('tra'), n);
      if (rec === null || group.targets.includes(rec)) continue;
      group.targets.push(rec);
      this.quiet(rec.setX((x) => [...x, group.value], { transition: t.transition }));
    }
    t.groups.push(group);
  }

  execStart({ n, mode, targets, at }) {
    const { sim } = this;
    const rec = this.pick(this.ofKind('tra'), n);
    if (rec === null) return;
    // One at a time for each component: the last one is over and shown as such.
    if (this.transitions.some((t) => t.rec === rec)) return;
    const t = { rec, mode, groups: [], done: false, pendingSeen: false, transition: null, resolve: null };
    this.transitions.push(t);
    const result = {};
    const action = (transition) => {
      t.transition = transition;
      this.add(t, targets);
      if (mode === 'throw') {
        t.done = true;
        sim.fault('transition action throws');
        throw new Boom('action');
      }
      if (mode === 'sync') {
        t.done = true;
        return result;
      }
      return new Promise((resolve, reject) => Object.assign(t, { resolve, reject }));
    };
    const run = () => {
      try {
        const r = rec.start(action);
        if (mode === 'sync' && r !== result) this.fail('transition', 'what the action returns is not passed on');
        if (mode === 'async' || mode === 'reject') r.catch(() => {});
      } catch (error) {
        if (!(error instanceof Boom)) throw error;
      }
    };
    if (at === 'event') this.inEvent('click', run);
    else run();
  }

  checkTransitions() {
    if (this.rejections > 0) return;
    for (const t of this.transitions.slice()) {
      const { rec } = t;
      let shownAny = false;
      let hiddenAny = false;
      for (const g of t.groups) {
        const live = g.targets.filter((r) => r.state === 'mounted');
        const shown = live.filter((r) => r.x.includes(g.value));
        if (shown.length > 0) shownAny = true;
        if (shown.length < live.length) {
          hiddenAny = true;
          if (shown.length > 0) this.fail('torn', `of the updates ${g.value} of a transition only ${shown.length} of ${live.length} are shown`);
        }
      }
      if (rec.state !== 'mounted') {
        if (t.done || !t.resolve) this.transitions.splice(this.transitions.indexOf(t), 1);
        continue;
      }
      if (shownAny && !t.pendingSeen && t.mode !== 'sync') this.fail('pending', `updates of a transition of ${rec.id} are shown before it was reported pending`);
      if (t.pendingSeen && !rec.committed.pending) {
        if (!t.done) this.fail('pending', `${rec.id} reports its transition done while the action is running`);
        else if (hiddenAny) this.fail('pending', `${rec.id} reports its transition done before its updates are shown`);
        this.transitions.splice(this.transitions.indexOf(t), 1);
      }
    }
  }

  // ---- checks ---------------------------------------------------------------------------

  onHostError(error) {
    if (error instanceof Boom && error.message === 'action') return;
    if (this.isBoom(error)) {
      this.rejections++;
      return;
    }
    this.fail('threw', `unexpected exception: ${error?.stack ?? error}`);
  }

  elements(root) {
    return [...root.el.querySelectorAll('li')];
  }

  /** What the component must show, by its last commit and the present state of the world. */
  expected(rec) {
    const { it } = rec.committed;
    switch (rec.kind) {
      case 'sig': {
        const a = show(this.signals[it.s].get());
        const b = show(this.signals[it.s2].get());
        return it.form === 0 || it.form === 1 ? [a, ''] : it.form === 3 ? [`${a}&${rec.atom.value}`, ''] : [a, b];
      }
      case 'ext':
        return [show(rec.committed.get()), ''];
      case 'def':
        return [it.v, it.v];
      case 'tra':
        return [rec.committed.pending, rec.committed.x.join(',')];
      case 'eev':
        return [it.n, ''];
      case 'imp':
        return [it.dep, ''];
    }
  }

  check() {
    const { sim } = this;
    const atRest = sim.host.candidates().length === 0;
    if (this.inFlight === 0 && this.rejections === 0) {
      for (const root of this.roots) {
        const els = this.elements(root);
        for (const rec of this.recs) {
          if (rec.kind !== 'ext' || rec.root !== root) continue;
          const el = els.find((el) => el.textContent.startsWith(rec.id + '|'));
          const want = [rec.id, ...this.expected(rec)].join('|');
          if (el?.textContent !== want) this.fail('stale', `after the task ${rec.id} shows ${el?.textContent} instead of ${want}`);
        }
      }
      const { urgentView } = this;
      this.urgentView = null;
      if (urgentView && urgentView.committed !== urgentView.view && sim.inOp === false) {
        this.fail('blocked', 'a synchronous update is not shown after its task');
      }
    }
    this.checkTransitions();
    this.checkRefs();
    if (this.burst && atRest && this.inFlight === 0 && this.rejections === 0) {
      for (const [rec, renders] of this.burst.before) {
        if (rec.state !== 'mounted' || rec.kind !== 'sig') continue;
        const extra = rec.renders - renders;
        if (extra > 1) this.fail('extra', `several writes in a row cause ${extra} updates of ${rec.id}`);
        if (extra > 0 && this.burst.text.get(rec).join() === this.expected(rec).join() && rec.committed.it.form !== 4) {
          this.fail('extra', `${rec.id} is updated although what it observes is as it was`);
        }
      }
      this.burst = null;
    }
    const d = new Digest();
    for (const root of this.roots) d.add(root.el.textContent);
    this.stateDigests.add(d.toString());
  }

  findShared() {
    const seen = new Set();
    for (const { kind, committed } of this.recs) {
      if (kind !== 'imp' || !committed?.ref) continue;
      if (seen.has(committed.ref)) this.shared.add(committed.ref);
      seen.add(committed.ref);
    }
  }

  checkRefs() {
    if (!this.cfg.kinds.includes('imp')) return;
    const owners = new Map();
    for (const rec of this.recs) {
      if (rec.kind === 'imp' && rec.committed.ref) {
        if (owners.has(rec.committed.ref)) owners.set(rec.committed.ref, 'several');
        else owners.set(rec.committed.ref, rec);
      }
    }
    const all = [...this.refs.map((r, i) => [r, r, 'ref ' + i]), ...this.fnRefs.map((f) => [f.fn, f, 'callback ' + f.i])];
    for (const [key, holder, name] of all) {
      const owner = owners.get(key);
      // Two components with one reference: it is the last one's, until it is given up.
      if (owner === 'several') {
        this.shared.add(key);
        continue;
      }
      if (owner !== undefined && this.shared.has(key)) continue;
      this.shared.delete(key);
      if (owner === undefined) {
        if (holder.current !== null) this.fail('handle', `${name} still holds the handle of ${holder.current?.id}`);
      } else if (holder.current !== owner.handle) {
        this.fail('handle', `${name} holds ${holder.current ? 'the handle of ' + holder.current.id + ' #' + holder.current.serial : 'nothing'} instead of the handle of ${owner.id}`);
      } else if (owner.handle.dep !== owner.committed.it.dep) {
        this.fail('handle', `the handle of ${owner.id} was made for ${owner.handle.dep} instead of ${owner.committed.it.dep}`);
      }
    }
  }

  settled() {
    const strict = this.rejections === 0;
    for (const root of this.roots) {
      const els = this.elements(root);
      const view = strict ? root.view : root.committed ?? [];
      const want = [];
      for (const it of view) {
        const rec = [...this.recs].find((r) => r.id === it.id && r.root === root);
        if (!rec) {
          if (strict) this.fail('view', `${it.id} is not mounted`);
          return;
        }
        if (strict && rec.committed.it !== it && JSON.stringify(rec.committed.it) !== JSON.stringify(it)) this.fail('view', `${it.id} was not updated with the list`);
        if (strict || rec.kind !== 'def') want.push([it.id, ...this.expected(rec)].join('|'));
      }
      const got = els.map((el) => el.textContent);
      if (!strict) continue;
      for (let i = 0; i < Math.max(want.length, got.length); i++) {
        if (want[i] !== got[i]) {
          this.fail('stale', `at rest ${got[i]} is shown instead of ${want[i]}`);
          return;
        }
      }
    }
    for (const t of strict ? this.transitions : []) {
      if (t.rec.state === 'mounted' && t.done && t.rec.committed.pending) this.fail('pending', `the transition (${t.mode}) of ${t.rec.id} is over, but is still reported pending`);
    }
  }

  onIdle(phase) {
    if (phase === 0) {
      this.settled();
      for (const t of this.transitions) {
        if (t.resolve) {
          t.done = true;
          t.mode === 'reject' ? t.reject(new Error('rejected action')) : t.resolve();
          t.resolve = null;
        }
      }
      this.armed = [];
      return true;
    }
    if (phase === 1) {
      this.settled();
      for (const root of this.roots) root.root.unmount();
      return true;
    }
    if (phase === 2) {
      for (const rec of this.recs) this.fail('leak', `${rec.id} is still mounted`);
      for (const st of this.stores) {
        if (st.subs.size > 0 || st.given !== st.released) this.fail('ledger', `${st.subs.size} subscriptions of store ${st.i} were not released`);
      }
      // Nothing may come of changes any more.
      const renders = this.serial;
      for (let n = 0; n < 5; n++) {
        this.write({ t: 'sig', n, d: 1 });
        this.write({ t: 'ext', n, d: 1 });
      }
      this.lastSerial = renders;
      return true;
    }
    if (this.serial !== this.lastSerial) this.fail('dead', 'something is rendered after everything was unmounted');
    return false;
  }
}
