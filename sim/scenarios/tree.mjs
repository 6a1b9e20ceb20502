// The main world: roots, runtimes and component trees under random updates,
// schedules and faults, with an executable model of what must be on the page.
import { SHAPES, makeTemplates, keyOf, Gen, tidy } from '../desc.mjs';
import { hash32 } from '../rng.mjs';

const SMALLS = [0, 'x', null, undefined, Number.NaN, 1, '', false, -0];
// What a view with provided value n provides, in this order.
const PROVIDES = ['c', 's', 'o', 'sc', 'cs', 'oc', 'i', 'ci'];
const PRIOS = ['user-blocking', 'user-visible', 'background'];
const CONTINUOUS = new Set([
  'drag', 'dragenter', 'dragleave', 'dragover', 'mouseenter', 'mouseleave', 'mousemove', 'mouseout', 'mouseover', 'pointerenter', 'pointerleave',
  'pointermove', 'pointerout', 'pointerover', 'scroll', 'touchmove', 'wheel',
]);
const EVENT_TYPES = [...CONTINUOUS, 'click', 'keydown', 'keyup', 'input', 'change', 'pointerdown', 'pointerup', 'mousedown', 'touchstart', 'dragstart', 'drop', 'submit', 'focusin', 'custom'];

class Fault extends Error {
  constructor(tag, rt) {
    super('injected fault ' + tag);
    this.tag = tag;
    this.rt = rt;
  }
}

function textOf(x) {
  return x === null || x === undefined ? '' : String(x);
}

const canonCache = new WeakMap();
/** The entry without a value that the props have. */
const extra = (props) => ('x' in props ? 1 : 'y' in props ? 2 : 0);

function canon(view) {
  if (view === null || typeof view !== 'object') return String(view);
  let s = canonCache.get(view);
  if (s === undefined) canonCache.set(view, (s = JSON.stringify(view)));
  return s;
}

/** Something that owns a view: a root or a component instance. */
class Owner {
  constructor(S, uid, rt) {
    this.uid = uid;
    this.rt = rt;
    this.nodes = new Map(); // identity key -> element or rec, as of the last check
    this.live = new Map(); // path -> mounted child rec
    this.snap = null; // what is committed
    this.stable = new Map();
    this.propsCache = new Map();
    this.portals = [];
    this.S = S;
  }
  portal(t) {
    let c = this.portals[t];
    if (c === undefined) {
      const doc = this.S.document;
      c = doc.createElement('aside');
      doc.body.appendChild(c);
      this.portals[t] = c;
      const name = this.uid + '/p' + t;
      this.S.containers.push({ el: c, foreign: this.S.ownNodes(c, name), name });
    }
    return c;
  }
  commit(snap) {
    this.snap = snap;
    for (const key of this.nodes.keys()) if (!snap || !snap.keys.has(key)) this.nodes.delete(key);
  }
}

class Rec extends Owner {}

export class Tree {
  constructor(sim) {
    this.sim = sim;
    this.cfg = sim.cfg;
    this.document = sim.document;
    this.foreign = new Set();
    this.containers = [];
    this.roots = [];
    this.recs = [];
    this.owners = new Map();
    this.handles = [];
    this.pending = new Set();
    this.serial = 0;
    this.actSerial = 0;
    this.uidSerial = 0;
    this.groups = [];
    this.ids = new Map();
    this.renderStack = [];
    this.uncommitted = new Set();
    this.aborted = new Set();
    this.stateDigests = new Set();
    this.elems = new Map();
    this.elemList = [];
    this.graveyard = [];
    this.cbs = new Map(); // element -> [{owner, serial, kind}] outstanding callbacks
    this.listenerCalls = null;
    this.eventActs = null;
    this.currentEvent = null;
    this.mountThrow = 0;
    this.watch = null;
    this.boundary = 0;
    this.resolvedInDrain = [];
    this.middlewares = [];
    this.mwRuns = new Map();
    this.spied = [null, null]; // the update being rendered, where a middleware tells
    this.handlersOut = 0;
    this.faultSerial = 0;
    this.faults = new Map();
    this.freshFaults = [];
    this.misused = null; // a fault the library has to raise itself
    this.misuses = new WeakMap();
    this.ops = 0;
    this.commits = 0;
    this.effectLog = 0;
  }

  fail(cls, msg) {
    this.sim.fail(cls, msg);
  }

  // ---- set-up ---------------------------------------------------------------------------

  setup() {
    const { sim, cfg } = this;
    const { core } = sim.lib;
    this.core = core;
    this.templates = makeTemplates(core.html);
    const S = this;
    this.Ctx = class Ctx {
      static getDefault() {
        return S.defaultCtx;
      }
      constructor(pv, by) {
        this.pv = pv;
        this.by = by;
      }
    };
    // A special kind of it with a default of its own, and something else without one.
    this.SubCtx = class SubCtx extends this.Ctx {
      static getDefault() {
        return S.defaultSub;
      }
    };
    this.PlainCtx = class PlainCtx extends this.Ctx {};
    this.OtherCtx = class OtherCtx {
      constructor(pv, by) {
        this.pv = pv;
        this.by = by;
      }
    };
    this.defaultCtx = new this.Ctx(-1, 'default');
    this.defaultSub = new this.SubCtx(-1, 'default of the special kind');
    this.noCtx = { by: 'an error' };
    this.defaultAvail = { c: this.defaultCtx, s: this.defaultSub, i: this.defaultCtx, o: this.noCtx };
    this.types = [0, 1, 2].map((ty) =>
      core.createComponent(
        Object.defineProperty(
          function (props) {
            return S.renderComponent(this, props, ty);
          },
          'name',
          { value: 'Comp' + ty },
        ),
        ty === 0
          ? undefined
          : ty === 1
            ? { arePropsEqual: core.shallowEqual }
            : {
                arePropsEqual: (a, b) =>
                  a.path === b.path && Object.is(a.v, b.v) && canon(a.w) === canon(b.w),
              },
      ),
    );
    // What a root is given is wrapped in a component whose effects tell exactly when
    // the root is committed and unmounted (cfg.bare: it is not, and the model learns
    // of it from the update handles).
    this.Shell = core.createComponent(function Shell({ snap, value }) {
      const root = snap.owner;
      this.useEffect(() => S.onRootCommit(root, snap));
      this.useEffect(() => () => S.onRootUnmount(root), []);
      return value;
    });
    this.runtimes = [];
    for (let i = 0; i < (cfg.runtimes ?? 1); i++) {
      const adapter = new core.DOMAdapter(sim.document);
      const runtime = new core.Runtime(adapter);
      if (!cfg.mixed) this.watchGrants(runtime, adapter);
      this.runtimes.push(runtime);
    }
    for (let i = 0; i < (cfg.roots ?? 1); i++) {
      const el = sim.document.createElement('main');
      const f = cfg.foreign !== false ? this.ownNodes(el, 'R' + i) : [];
      sim.document.body.appendChild(el);
      const rt = i % this.runtimes.length;
      const o = new Owner(this, 'R' + i, rt);
      o.root = new core.DOMRoot(el, this.runtimes[rt]);
      o.el = el;
      o.isRoot = true;
      o.world = i;
      o.refs = [new core.Ref(null), new core.Ref(null)];
      o.last = null; // last value asked for
      this.owners.set(o.uid, o);
      this.roots.push(o);
      this.containers.push({ el, foreign: f, name: o.uid });
    }
    this.docListener = (event) => {
      const acts = this.eventActs;
      if (acts) {
        this.eventActs = null;
        this.currentEvent = event.type;
        this.runActs(acts, 'event');
        this.currentEvent = null;
      }
    };
    for (const t of EVENT_TYPES) sim.document.addEventListener(t, this.docListener, true);
    if (cfg.spy) {
      this.runtimes.forEach((runtime, rt) =>
        runtime.use({
          handle: (update, next) => {
            this.spied[rt] = cfg.mixed ? null : update;
            try {
              return next(update);
            } finally {
              this.spied[rt] = null;
            }
          },
        }),
      );
    }
    if (cfg.mw) for (let i = 0; i < cfg.mw; i++) this.addMiddleware(i % this.runtimes.length);
    this.gen_ = null;
    this.mountThrows = this.roots.map(() => 0);
  }

  dispose() {
    for (const t of EVENT_TYPES) this.sim.document.removeEventListener(t, this.docListener, true);
  }

  onHostError(error) {
    if (error instanceof Fault) return;
    this.fail('hosterror', 'unexpected error reached the host: ' + (error?.stack ?? error));
  }

  // ---- middleware -----------------------------------------------------------------------

  addMiddleware(rt) {
    const S = this;
    const id = this.middlewares.length;
    const entry = { id, rt, active: true, off: null };
    this.middlewares.push(entry);
    if (this.cfg.noMw) return;
    const inner = this.makeMiddleware(id);
    const mw = {
      handle(update, render) {
        const run = S.mwEnter(rt, id, update);
        let commit;
        try {
          commit = inner.handle(update, render);
        } finally {
          S.mwExit(run, id);
        }
        let n = 0;
        return () => {
          if (++n > 1) S.fail('mw', `commit of update ${update.id} called ${n} times through middleware ${id}`);
          commit();
        };
      },
    };
    entry.off = this.runtimes[rt].use(mw);
    this.sim.probe('mw-added');
  }

  /** Every third one only observes, the others are the bundled logger and profiler. */
  makeMiddleware(id) {
    const S = this;
    const { lib } = this.sim;
    if (id % 3 === 1 && this.cfg.bundledMw !== 0) {
      const groups = [];
      const logger = new lib.logger.UpdateLogger({
        groupCollapsed: (...args) => groups.push(String(args[0])),
        groupEnd: () => {},
        log: () => {},
      });
      const expect = (update, word, from) => {
        S.sim.probe('mw-logged-' + word);
        const fresh = groups.slice(from).filter((g) => new RegExp(`#${update.id}(?![0-9])`).test(g));
        if (fresh.length !== 1 || !fresh[0].toUpperCase().includes(word)) {
          S.fail('mw', `update ${update.id} ${word.toLowerCase()}, the logger reported ${JSON.stringify(fresh)}`);
        }
      };
      return wrapMw(logger, () => groups.length, (u, n) => expect(u, 'COMPLETED', n), (u, n) => expect(u, 'FAILED', n));
    }
    if (id % 3 === 2 && this.cfg.bundledMw !== 0) {
      const marks = new Set();
      const measures = [];
      const profiler = new lib.profiler.UpdateProfiler({
        mark: (name) => marks.add(name),
        measure: (name, from, to) => {
          // As in browsers: naming a mark that does not exist throws.
          if (!marks.has(from) || !marks.has(to)) throw new SyntaxError(`The mark '${from}' or '${to}' does not exist.`);
          measures.push({ name, from, to });
        },
      });
      const expect = (update, n) => {
        S.sim.probe('mw-profiled');
        const fresh = measures.slice(n).filter((m) => m.name.startsWith('Update'));
        if (fresh.length !== 1) S.fail('mw', `the profiler reported update ${update.id} ${fresh.length} times`);
      };
      return wrapMw(profiler, () => measures.length, expect, (u, n) => {
        if (measures.length !== n) S.fail('mw', `the profiler reported the failed update ${u.id} as committed`);
      });
    }
    return { handle: (update, render) => render(update) };
  }

  removeMiddleware(n) {
    const active = this.middlewares.filter((m) => m.active);
    if (active.length === 0) return;
    const m = active[n % active.length];
    m.active = false;
    m.off?.();
    this.sim.probe('mw-removed');
  }
  mwEnter(rt, id, update) {
    const key = rt + ':' + update.id;
    let run = this.mwRuns.get(key);
    if (run === undefined) {
      run = { seen: [], open: [], expect: this.middlewares.filter((m) => m.active && m.rt === rt).map((m) => m.id) };
      this.mwRuns.set(key, run);
    }
    run.seen.push(id);
    run.open.push(id);
    const i = run.seen.length - 1;
    if (run.expect[i] !== id) {
      this.fail('mw', `update ${update.id}: middleware ${id} ran at position ${i}, expected ${run.expect[i]}`);
    }
    this.sim.probe('mw-run');
    return run;
  }
  mwExit(run, id) {
    if (run.open.pop() !== id) this.fail('mw', 'middlewares do not nest');
    if (run.open.length === 0 && run.seen.length !== run.expect.length) {
      // A render that threw still went through every middleware on the way in.
      this.fail('mw', `middlewares ${run.expect} were registered, ${run.seen} ran`);
    }
  }

  // ---- building views -------------------------------------------------------------------

  snapFor(owner, view, v, tag, small) {
    return { owner, serial: ++this.serial, view, v, tag, small, placed: new Map(), keys: new Set(), ctx: null };
  }

  build(d, snap, path) {
    const { core } = this;
    const owner = snap.owner;
    if (!d) return null;
    switch (d.k) {
      case 't':
        return d.v;
      case 'e': {
        const p = path + 'e' + d.i;
        let n = 0;
        const count = (items) => {
          for (const it of items)
            if (Array.isArray(it)) {
              snap.keys.add(p + '#' + n++);
              count(it[2]);
            }
        };
        count(SHAPES[d.i]);
        const b = {
          a: `${d.v}|${owner.uid}|${snap.tag}`,
          u: `${owner.uid}:${d.v}`,
          x: snap.small,
          k: `k${d.v} s${owner.uid}`,
          r: this.buildRef(d, snap, p),
          e: this.buildListener(d, snap, p),
          c: d.h.map((c, i) => this.build(c, snap, p + '.' + i)),
        };
        return this.templates[d.i](b);
      }
      case 'f':
        return core.createFragment(
          d.it.map(([key, item], i) => {
            if (d.u) return this.build(item, snap, path + '[' + i + ']');
            const value = this.build(item, snap, path + '<' + key + '>');
            return this.asElement(value).withKey(keyOf(key));
          }),
        );
      case 'c': {
        const p = path + 'c' + d.ty;
        let props = d.cache ? owner.propsCache.get(p) : undefined;
        if (props === undefined) {
          props = { path: p, pu: owner.uid, ty: d.ty, v: d.v, w: d.w };
          // Entries that are there or not, with no value.
          const x = d.x ? (d.x + (snap.small ? 1 : 0)) % 3 : 0;
          if (x) props[x === 1 ? 'x' : 'y'] = undefined;
          owner.propsCache.set(p, props);
        }
        snap.placed.set(p, props);
        snap.keys.add(p);
        return this.types[d.ty](props);
      }
      case 'p':
        return core.createPortal(this.build(d.d, snap, path + 'p' + d.t + '.'), owner.portal(d.t));
    }
    throw new Error('bad desc ' + JSON.stringify(d));
  }

  asElement(value) {
    const { core } = this;
    if (value === null || typeof value !== 'object') return core.createBind(value);
    return value;
  }

  buildRef(d, snap, path) {
    const { r } = d;
    if (r === null || r === undefined) return null;
    const owner = snap.owner;
    if (r === 0 || r === 1) return owner.refs[r];
    const make = (serial) => (el) => {
      this.onCb(owner, serial, path, el);
      return () => this.onCbCleanup(owner, serial, path, el);
    };
    if (r === 'cbn') return make(snap.serial);
    // 'cb': the same function for as long as it stays at this place
    const key = 'cb' + path;
    let f = owner.stable.get(key);
    if (f === undefined) owner.stable.set(key, (f = make(0)));
    return f;
  }

  onCb(owner, serial, path, el) {
    const list = this.cbs.get(el) ?? [];
    if (list.length > 0) {
      this.fail('cb', `element callback of ${owner.uid} ${path} called while a previous one on the element was not cleaned up`);
    }
    list.push({ owner, serial, path });
    this.cbs.set(el, list);
    this.sim.probe('cb');
    if (this.aborted.has(serial)) this.fail('cb-uncommitted', `element callback of an uncommitted render of ${owner.uid} was called`);
  }
  onCbCleanup(owner, serial, path, el) {
    const list = this.cbs.get(el);
    const i = list ? list.findIndex((c) => c.owner === owner && c.serial === serial && c.path === path) : -1;
    if (i < 0) this.fail('cb', `element callback cleanup of ${owner.uid} ${path} called without a matching call, or twice`);
    else list.splice(i, 1);
    if (list && list.length === 0) this.cbs.delete(el);
  }

  buildListener(d, snap, path) {
    const { e } = d;
    if (!e) return null;
    const owner = snap.owner;
    const call = (serial) => (event) => this.onListener(owner, serial, path, e, event);
    switch (e) {
      case 'f':
        return call(snap.serial);
      case 'fs': {
        const key = 'fs' + path;
        let f = owner.stable.get(key);
        if (f === undefined) owner.stable.set(key, (f = call(0)));
        return f;
      }
      case 'o':
        return { handleEvent: call(snap.serial) };
      case 'oc':
        return { capture: true, handleEvent: call(snap.serial) };
      case 'op':
        return { passive: true, handleEvent: call(snap.serial) };
    }
    return null;
  }

  onListener(owner, serial, path, e, event) {
    if (this.listenerCalls === null) {
      this.fail('listener', `listener of ${owner.uid} ${path} called outside of any event`);
      return;
    }
    this.listenerCalls.push(`${owner.uid} ${path} ${e} ${serial}`);
    this.sim.probe('listener');
    if (e === 'op') {
      event.preventDefault();
      if (event.defaultPrevented) this.fail('passive', `passive listener of ${owner.uid} ${path} could prevent the default`);
    }
  }

  // ---- components -----------------------------------------------------------------------

  renderComponent(context, props, ty) {
    const S = this;
    const { sim } = this;
    let mounting = false;
    const memoToken = {};
    const rec = context.useMemo(() => {
      mounting = true;
      const r = new Rec(S, 'i' + ++S.uidSerial, -1);
      r.first = memoToken;
      return r;
    }, []);
    if (mounting) this.initRec(rec, context, props, ty);
    else if (rec.context !== context) this.fail('identity', `render context of ${rec.uid} changed`);
    this.serial++;
    rec.renders++;
    sim.probe('render');
    this.sim.note(`render ${rec.uid}${mounting ? ' new ' + props.path + ' in ' + props.pu : ''}`);

    // Why does it render?
    // After an aborted batch an own update goes back to the committed props.
    const reverted = rec.dirty && rec.snap !== null && props === rec.snap?.props;
    const fromParent = mounting || (props !== rec.lastProps && !reverted);
    if (!mounting && props.path !== rec.path) {
      this.fail('identity', `instance ${rec.uid} of ${rec.path} was rendered with the props of ${props.path}`);
    }
    if (!mounting && props.pu !== rec.pu) {
      this.fail('identity', `instance ${rec.uid} of ${rec.pu} was rendered with the props of ${props.pu}`);
    }
    if (rec.gone) this.fail('render-dead', `removed instance ${rec.uid} was rendered`);
    const own = this.ownPending(rec, this.spied[rec.rt]);
    const cause = rec.dirty || rec.leftover || rec.armedRender;
    if (!mounting && !own && !cause) {
      const base = rec.snap ? rec.snap.props : rec.lastProps;
      if (!fromParent) this.fail('cause', `${rec.uid} rendered again without an update of its own or new props`);
      else if (this.propsEqual(ty, base, props) && this.propsEqual(ty, rec.lastProps, props)) {
        this.fail('cause', `${rec.uid} rendered although its new props compare equal and it has no update`);
      }
    }
    if (fromParent && !mounting) sim.probe('render-from-parent');
    rec.lastProps = props;

    if (mounting && this.mountThrow > 0) {
      this.mountThrow--;
      this.throwFault(rec, 'mount');
    }
    if (mounting && this.cfg.iso && this.mountThrows[rec.world] > 0) {
      this.mountThrows[rec.world]--;
      this.throwFault(rec, 'mount');
    }
    if (rec.armThrow === 'start') this.throwArmed(rec);
    if (rec.armThrow === 'early') this.misuse(rec, context, ['useMemo', 'useId', 'useEffect', 'useRef']);

    // Hooks
    const ver = this.serial;
    const [log, dispatch] = context.useReducer((state, action) => {
      // Called outside of a render, it must not be from before the last commit.
      if (rec.snap && ver < rec.snap.ver) this.fail('fold', `an outdated reducer of ${rec.uid} was called`);
      return logReducer(state, action);
    }, EMPTY);
    const [vs, setView] = context.useState(NO_VIEW);
    const [small, setSmall] = context.useState(0);
    if (mounting) {
      rec.dispatch = dispatch;
      rec.setView = setView;
      rec.setSmall = setSmall;
    } else if (rec.dispatch !== dispatch || rec.setView !== setView || rec.setSmall !== setSmall) {
      this.fail('hookid', `dispatch functions of ${rec.uid} changed between renders`);
    }
    if (rec.armThrow === 'mid') this.throwArmed(rec);
    if (rec.armThrow === 'within') this.misuse(rec, context, ['useReducer', 'useState', 'useEffect']);
    if (rec.armThrow === 'fewer' && this.misused === null) {
      // It is the library that has to notice.
      rec.armThrow = null;
      this.sim.fault('fewer-hooks');
      this.markAborted(rec.rt, rec);
      this.misused = this.newFault(rec.rt);
      this.misused.where = this.stackOf(rec);
      return null;
    }
    if (mounting) rec.id = [];
    for (let i = 0; i < (this.cfg.ids ?? 1); i++) {
      const id = context.useId();
      if (mounting) {
        rec.id.push(id);
        const other = this.ids.get(id);
        if (other !== undefined) this.fail('id', `useId of ${rec.uid} equals that of ${other}: ${id}`);
        this.ids.set(id, rec.uid);
      } else if (rec.id[i] !== id) this.fail('id', `useId of ${rec.uid} changed`);
    }

    let computed = 0;
    const memo = context.useMemo(() => {
      if (rec.armThrow === 'memo') this.throwArmed(rec);
      computed++;
      return { v: props.v, small };
    }, [props.v, small]);
    const cb = context.useCallback(() => props.v, [props.v]);
    const same = !mounting && rec.memoDeps && Object.is(rec.memoDeps[0], props.v) && Object.is(rec.memoDeps[1], small);
    if (!Object.is(memo.v, props.v) || !Object.is(memo.small, small)) {
      this.fail('memo', `memo of ${rec.uid} is stale: ${memo.v}/${String(memo.small)} for ${props.v}/${String(small)}`);
    }
    if (computed !== (same ? 0 : 1)) {
      this.fail('memo', `memo of ${rec.uid} computed ${computed} times, dependencies ${same ? 'unchanged' : 'changed'}`);
    }
    if (same && memo !== rec.memo) this.fail('memo', `memo of ${rec.uid} changed without its dependencies`);
    if (cb() !== props.v) this.fail('memo', `callback of ${rec.uid} is stale`);
    const cbSame = !mounting && rec.cbDeps && Object.is(rec.cbDeps[0], props.v);
    if (cbSame !== undefined && !mounting && cbSame !== (cb === rec.cb)) {
      if (cbSame) this.fail('memo', `callback identity of ${rec.uid} changed without its dependencies`);
    }
    const deps2 = varyingDeps(small);
    const memo2 = context.useMemo(() => rec.renders, deps2);
    const again = mounting || depsChanged(rec.deps2, deps2);
    if ((memo2 === rec.renders) !== again) {
      this.fail('memo', `memo of ${rec.uid} is ${again ? 'not ' : ''}computed again for ${deps2} after ${rec.deps2}`);
    }
    rec.deps2 = deps2;
    rec.memo = memo;
    rec.memoDeps = [props.v, small];
    rec.cb = cb;
    rec.cbDeps = [props.v];

    const r0 = context.useRef(null);
    // What it begins with counts only once.
    const r1 = context.useRef(mounting ? null : [undefined, 0, 'r', rec][rec.renders & 3]);
    if (mounting) rec.refs = [r0, r1];
    else if (rec.refs[0] !== r0 || rec.refs[1] !== r1) this.fail('hookid', `refs of ${rec.uid} changed between renders`);

    // State history
    this.checkFold(rec, log, vs, false);

    const view = vs.view ?? props.w;
    const snap = this.snapFor(rec, view, props.v, logTag(log), small);
    snap.props = props;
    snap.log = log;
    snap.viewSeq = vs.seq;
    snap.ver = ver;
    rec.renderSnap = snap;
    this.uncommitted.add(rec);

    // Context
    const got = this.injectAll(context);
    this.checkCtx(rec, got, fromParent, mounting);
    rec.avail = got;
    if (view.pv !== undefined && this.cfg.context) {
      const avail = { ...got };
      for (const kind of PROVIDES[view.pv]) {
        const Kind = kind === 'c' ? this.Ctx : kind === 's' ? this.SubCtx : kind === 'i' ? this.PlainCtx : this.OtherCtx;
        const mine = new Kind(view.pv, `${rec.uid}@${snap.serial}${kind}`);
        context.provide(mine);
        avail[kind] = mine;
        if (kind === 's' || kind === 'i') avail.c = mine;
      }
      const now = this.injectAll(context);
      for (const kind in now) {
        if (now[kind] !== avail[kind]) this.fail('ctx', `${rec.uid} receives ${now[kind].by} after it provided ${avail[kind].by}`);
      }
      rec.avail = avail;
    }

    // Effects. The first one marks the commit, the last one closes it.
    context.useEffect(() => {
      this.onCommit(rec, snap);
      return () => this.onCleanup(rec, 'always', snap);
    });
    context.useEffect(() => {
      this.onMount(rec, snap);
      return () => this.onUnmount(rec);
    }, []);
    context.useEffect(() => {
      this.onEffect(rec, 'v', snap, [snap.v]);
      return () => this.onCleanup(rec, 'v', snap);
    }, [snap.v]);
    context.useEffect(() => {
      this.onEffect(rec, 'small', snap, [snap.small, log.length]);
      return () => this.onCleanup(rec, 'small', snap);
    }, [snap.small, log.length]);
    context.useEffect(() => {
      this.onEffect(rec, 'opt', snap, [snap.small]);
      if (rec.effects.opt.runs % 2 === 0) {
        rec.effects.opt.on = false;
        return;
      }
      return () => this.onCleanup(rec, 'opt', snap);
    }, [snap.small]);
    const deps = varyingDeps(small);
    context.useEffect(() => {
      this.onEffect(rec, 'var', snap, deps);
      return () => this.onCleanup(rec, 'var', snap);
    }, deps);
    context.useEffect(() => this.onCommitEnd(rec, snap));

    if (rec.armedRender) {
      const acts = rec.armedRender;
      rec.armedRender = null;
      this.runActs(acts, 'render', rec);
    }
    if (rec.armThrow === 'more') this.misuse(rec, context, ['useMemo', 'useId', 'useEffect', 'useState', 'useRef']);
    if (rec.armThrow === 'end') this.throwArmed(rec);
    return this.build(view.d, snap, '');
  }

  initRec(rec, context, props, ty) {
    rec.context = context;
    rec.path = props.path;
    rec.pu = props.pu;
    rec.ty = ty;
    rec.renders = 0;
    rec.lastProps = props;
    rec.mounted = false;
    rec.gone = false;
    rec.dirty = false;
    rec.acts = [];
    rec.smallActs = [];
    rec.seenLog = new Set();
    rec.viewSeq = 0;
    rec.effects = Object.create(null);
    rec.own = new Set();
    const owner = this.owners.get(props.pu);
    rec.rt = owner.rt;
    rec.world = owner.world;
    rec.order = this.recs.length;
    this.owners.set(rec.uid, rec);
    this.recs.push(rec);
  }

  propsEqual(ty, a, b) {
    if (a === b) return true;
    if (!a || !b) return false;
    if (ty === 0) return false;
    if (ty === 1) return a.path === b.path && a.pu === b.pu && Object.is(a.v, b.v) && a.w === b.w && extra(a) === extra(b);
    return a.path === b.path && Object.is(a.v, b.v) && canon(a.w) === canon(b.w);
  }

  /** Has it an update waiting (if `batch` is given: one of the priority being rendered)? */
  ownPending(rec, batch = null) {
    for (const h of rec.own) if (h.state === 'p' && !h.atOnce && (batch === null || h.lanes & batch.lanes)) return true;
    return false;
  }

  injectAll(context) {
    const get = (Kind) => {
      try {
        return context.inject(Kind);
      } catch (error) {
        if (error instanceof ReferenceError) return this.noCtx;
        throw error;
      }
    };
    const c = get(this.Ctx);
    return this.cfg.context ? { c, s: get(this.SubCtx), i: get(this.PlainCtx), o: get(this.OtherCtx) } : { c };
  }

  checkCtx(rec, got, fromParent, mounting) {
    if (!this.cfg.context) return;
    const owner = this.owners.get(rec.pu);
    const fresh = mounting || fromParent;
    if (fresh) rec.ctxUnknown = false;
    for (const kind in got) {
      if (fresh) {
        const expected = owner.isRoot ? this.defaultAvail[kind] : owner.avail[kind];
        // The parent may have been rendered again without reaching this component only
        // if its props compared equal, and then this component is not rendered by it.
        if (got[kind] !== expected) {
          this.fail('ctx', `${rec.uid} (rendered by its parent) received ${got[kind].by}, expected ${expected.by}`);
        }
      } else if (!rec.ctxUnknown && got[kind] !== rec.seenCtx[kind]) {
        // Its parent, rendered in the same batch, may have reached it with the very same
        // props (an element that was cached) because of the update.
        if (!owner.isRoot && this.uncommitted.has(owner) && got[kind] === owner.avail[kind]) {
          rec.seenCtx = { ...rec.seenCtx, [kind]: got[kind] };
          continue;
        }
        this.fail('ctx', `${rec.uid} (own update) received ${got[kind].by}, expected ${rec.seenCtx[kind].by}`);
      }
    }
    if (fresh) rec.seenCtx = got;
  }

  /** Calls a hook where no render before did. */
  misuse(rec, context, hooks) {
    const hook = hooks[rec.renders % hooks.length];
    const args = { useMemo: [() => 0, []], useId: [], useEffect: [() => {}, []], useRef: [null], useReducer: [(s) => s, 0], useState: [0] }[hook];
    let refused = false;
    try {
      context[hook](...args);
    } catch {
      refused = true;
    }
    this.sim.fault('misplaced-hook');
    if (!refused) this.fail('misuse', `${rec.uid} could call ${hook} (${rec.armThrow}) although it has not before`);
    this.throwArmed(rec);
  }

  throwArmed(rec) {
    rec.armThrow = null;
    this.throwFault(rec, 'render');
  }

  throwFault(rec, kind) {
    this.sim.fault('throw-in-' + kind);
    this.markAborted(rec.rt, rec);
    const fault = this.newFault(rec.rt);
    fault.where = this.stackOf(rec);
    throw fault;
  }

  /** The components a component is in, and itself. */
  stackOf(rec) {
    const names = [];
    let at = rec;
    for (; !at.isRoot; at = this.owners.get(at.pu)) names.unshift('Comp' + at.ty);
    if (!this.cfg.bare) names.unshift('Shell');
    return ['DOMRoot', ...names].join();
  }

  /** Everything rendered but not committed in this runtime is now void. */
  markAborted(rt, extra) {
    if (extra) this.uncommitted.add(extra);
    for (const rec of this.uncommitted) {
      if (rec.rt !== rt) continue;
      this.uncommitted.delete(rec);
      rec.dirty = true;
      rec.ctxUnknown = true;
      if (rec.renderSnap && rec.renderSnap !== rec.snap) this.aborted.add(rec.renderSnap.serial);
    }
  }

  // ---- state history --------------------------------------------------------------------

  checkFold(rec, log, vs, complete) {
    // log must be a subsequence of the dispatched actions, in dispatch order, no repeats
    let i = 0;
    for (const id of log) {
      while (i < rec.acts.length && rec.acts[i].id !== id) i++;
      if (i >= rec.acts.length) {
        this.fail('fold', `${rec.uid}: state shows actions [${log}] but dispatched were [${rec.acts.map((a) => a.id)}]`);
        return;
      }
      i++;
    }
    for (const id of rec.seenLog) {
      if (!log.includes(id)) {
        this.fail('fold', `${rec.uid}: action ${id} was applied before but is missing from [${log}]`);
        return;
      }
    }
    for (const id of log) rec.seenLog.add(id);
    if (vs.seq < rec.viewSeq) {
      this.fail('fold', `${rec.uid}: view state went back from ${rec.viewSeq} to ${vs.seq}`);
    }
    rec.viewSeq = Math.max(rec.viewSeq, vs.seq);
    if (complete) {
      const missing = rec.acts.filter((a) => !a.rejected && !log.includes(a.id));
      if (missing.length > 0) {
        this.fail('fold', `${rec.uid}: after everything settled the state is [${log}], dispatched were [${rec.acts.map((a) => a.id + (a.rejected ? '!' : ''))}]`);
      }
    }
  }

  /** Is the value a fold of the payloads, where rejected ones may be left out? */
  smallPossible(rec) {
    let values = [0];
    for (const { payload, rejected } of rec.smallActs) {
      const next = values.map((v) => (typeof payload === 'function' ? payload(v) : payload));
      values = rejected ? [...values, ...next] : next;
      if (values.length > 64) values = values.filter((v, i) => values.findIndex((w) => Object.is(v, w)) === i);
    }
    return values.some((v) => Object.is(v, rec.snap.small));
  }

  // ---- effects --------------------------------------------------------------------------

  effect(rec, name) {
    return (rec.effects[name] ??= { on: false, deps: null, runs: 0 });
  }

  sem(str) {
    this.sim.sem.add(str);
    this.effectLog++;
  }

  onCommit(rec, snap) {
    const e = this.effect(rec, 'always');
    if (e.on) this.fail('effect-pair', `always-effect of ${rec.uid} set up again without cleanup`);
    e.on = true;
    this.commits++;
    this.sim.probe('commit');
    this.sem('commit ' + rec.uid + ' ' + snap.tag);
    if (this.aborted.has(snap.serial)) {
      this.fail('effect-uncommitted', `effects of ${rec.uid} ran for a render that was aborted`);
    }
    if (rec.gone) this.fail('effect-dead', `effect of removed ${rec.uid} ran`);
    rec.prev = rec.snap;
    rec.commit(snap);
    this.uncommitted.delete(rec);
    if (rec.renderSnap !== snap) this.uncommitted.add(rec);
    // children first
    for (const [path, props] of snap.placed) {
      const child = rec.live.get(path);
      if (!child || child.gone) {
        this.fail('effect-order', `effects of ${rec.uid} ran before those of its child at ${path}`);
      } else if (!child.snap || (child.snap.props !== props && !this.propsEqual(child.ty, child.snap.props, props))) {
        this.fail('effect-order', `effects of ${rec.uid} ran before its child ${child.uid} was committed with its new props`);
      }
    }
    this.checkOwnRefs(rec, 'in an effect');
    this.checkEffectDom(rec, snap);
    if (rec.armEffect) {
      const acts = rec.armEffect;
      rec.armEffect = null;
      this.runActs(acts, 'effect', rec);
    }
  }

  onCommitEnd(rec, snap) {
    rec.dirty = false;
    if (!this.cfg.bare && rec.epoch !== (this.roots[rec.world].epoch ?? 0)) {
      this.fail('rootstate', `${rec.uid} outlived the unmount of its root R${rec.world}`);
    }
    if (this.cfg.effectStrict !== false) this.checkEffectsRan(rec, snap);
  }

  checkEffectsRan(rec, snap) {
    const v = rec.effects.v;
    const s = rec.effects.small;
    if (!v || !v.on || !Object.is(v.deps[0], snap.v)) {
      this.fail('effect-missed', `effect on v of ${rec.uid} did not run for ${String(snap.v)}`);
    }
    if (!s || !s.on || !Object.is(s.deps[0], snap.small) || !Object.is(s.deps[1], snap.log.length)) {
      this.fail('effect-missed', `effect on state of ${rec.uid} did not run for ${String(snap.small)}/${snap.log.length}`);
    }
    const r = rec.effects.var;
    const deps = varyingDeps(snap.small);
    if (!r || !r.on || (deps ? depsChanged(r.deps, deps) : r.snap !== snap)) {
      this.fail('effect-missed', `effect of ${rec.uid} with other dependencies than before (${deps}) did not run`);
    }
    if (!rec.mounted) this.fail('effect-missed', `mount effect of ${rec.uid} did not run`);
  }

  onMount(rec) {
    rec.epoch = this.roots[rec.world].epoch ?? 0;
    const e = this.effect(rec, 'mount');
    if (e.on || e.runs > 0) this.fail('effect-pair', `mount effect of ${rec.uid} ran twice`);
    e.on = true;
    e.runs++;
    rec.mounted = true;
    this.sim.probe('mount');
    this.sem('mount ' + rec.uid + ' ' + rec.path);
    const owner = this.owners.get(rec.pu);
    const old = owner.live.get(rec.path);
    if (old !== undefined) {
      this.fail('identity', `${rec.uid} was mounted at ${rec.pu}${rec.path} while ${old.uid} is still mounted there`);
    }
    owner.live.set(rec.path, rec);
    if (owner.gone) this.fail('effect-order', `${rec.uid} was mounted under removed ${owner.uid}`);
  }

  onUnmount(rec) {
    const e = this.effect(rec, 'mount');
    if (!e.on) this.fail('effect-pair', `mount effect of ${rec.uid} cleaned up twice`);
    e.on = false;
    rec.gone = true;
    this.sim.probe('unmount');
    this.sem('unmount ' + rec.uid);
    const owner = this.owners.get(rec.pu);
    if (owner.live.get(rec.path) === rec) owner.live.delete(rec.path);
    // Parents before children: nothing below has been cleaned up yet.
    if (rec.snap) {
      for (const path of rec.snap.placed.keys()) {
        const child = rec.live.get(path);
        if (!child || child.gone) {
          this.fail('effect-order', `cleanup of ${rec.uid} ran after that of its child at ${path}`);
        }
      }
    }
    this.checkOwnRefs(rec, 'in the cleanup on removal');
    if (rec.effects.always?.on) this.fail('effect-pair', `always-effect of ${rec.uid} not cleaned up before later effects on removal`);
  }

  onEffect(rec, name, snap, deps) {
    const e = this.effect(rec, name);
    if (e.on) this.fail('effect-pair', `effect ${name} of ${rec.uid} set up again without cleanup`);
    if (rec.gone) this.fail('effect-dead', `effect ${name} of removed ${rec.uid} ran`);
    e.on = true;
    this.sem(`effect ${name} ${rec.uid} ${deps?.map(String)}`);
    if (rec.snap !== snap) this.fail('effect-uncommitted', `effect ${name} of ${rec.uid} ran for another render than the committed one`);
    if (e.runs > 0 && !rec.dirty && !depsChanged(e.deps, deps)) {
      this.fail('effect-extra', `effect ${name} of ${rec.uid} ran again although its dependencies are unchanged`);
    }
    e.runs++;
    e.deps = deps;
    e.snap = snap;
  }

  onCleanup(rec, name, snap) {
    const e = this.effect(rec, name);
    if (!e.on) this.fail('effect-pair', `cleanup of effect ${name} of ${rec.uid} ran twice`);
    e.on = false;
    this.sem(`cleanup ${name} ${rec.uid}`);
    if (name === 'always' && rec.armCleanup) {
      const acts = rec.armCleanup;
      rec.armCleanup = null;
      this.runActs(acts, 'cleanup', rec);
    }
    void snap;
  }

  /** Elements of the owner's own committed view that carry refs. */
  checkOwnRefs(rec, when) {
    if (!rec.snap) return;
    for (const { d, path } of ownElements(rec.snap)) {
      if (d.r === 0 || d.r === 1) {
        const el = rec.refs[d.r].current;
        if (!el || el.localName !== SHAPES[d.i][0][0]) {
          this.fail('ref', `ref ${d.r} of ${rec.uid} at ${path} is ${el ? el.localName : el} ${when}`);
          continue;
        }
        const known = rec.nodes.get(path + '#0');
        if (known && known !== el) this.fail('ref', `ref ${d.r} of ${rec.uid} at ${path} holds another element ${when}`);
      }
    }
  }

  checkEffectDom(rec, snap) {
    for (const { d, path } of ownElements(snap)) {
      if (d.r === 0 || d.r === 1) {
        const el = rec.refs[d.r].current;
        if (!el) continue;
        if (!el.isConnected) this.fail('effect-dom', `element ${path} of ${rec.uid} is not in the page when its effects run`);
        if (d.i === 8 && el.getAttribute('title') !== `${d.v}|${rec.uid}|${snap.tag}`) {
          this.fail('effect-dom', `element ${path} of ${rec.uid} shows ${el.getAttribute('title')} when its effects run`);
        }
      }
    }
  }

  // ---- actions --------------------------------------------------------------------------

  liveRecs() {
    return this.recs.filter((r) => r.mounted && !r.gone);
  }

  pickRec(n, dead) {
    let list = dead ? this.recs.filter((r) => r.gone) : this.liveRecs();
    if (this.cfg.iso) {
      // The world is fixed by n alone, so that removing another world's operations
      // leaves what the others mean unchanged.
      const w = n % this.roots.length;
      list = list.filter((r) => r.world === w);
      n = Math.floor(n / this.roots.length);
    }
    return list.length > 0 ? list[n % list.length] : null;
  }

  /** Update options of an act, with what the model derives from them. */
  options(o, source) {
    const opts = {};
    const ranks = [];
    if (o?.s) {
      opts.flushSync = true;
      ranks.push(0);
    }
    if (o?.h) ranks.push(1);
    if (o?.p !== undefined) {
      opts.priority = PRIOS[o.p];
      ranks.push(2 + o.p);
    }
    if (o?.t !== undefined) {
      opts.transition = o.t;
      ranks.push(5 + (o.t % 24));
    }
    if (o?.d !== undefined) {
      opts.delay = o.d;
      ranks.push(o.d <= 100 ? 40 : 41);
    }
    if (ranks.length === 0) {
      // Default priority: by the event being handled.
      const type = this.currentEvent;
      ranks.push(type !== null ? (CONTINUOUS.has(type) ? 3 : 2) : this.cfg.loading ? 2 : 4);
    }
    void source;
    return { opts, rank: Math.min(...ranks), key: ranks.join('+') };
  }

  track(handle, info) {
    const h = Object.assign(info, { n: this.handles.length, state: "p", at: this.boundary });
    this.handles.push(h);
    this.pending.add(h);
    h.rec?.own.add(h);
    h.id = handle.id;
    h.lanes = handle.lanes;
    handle.finished.then(
      () => this.onSettled(h, true),
      (error) => this.onSettled(h, false, error),
    );
    return h;
  }

  busy(rt) {
    // Something is being processed: a commit frame or a handler is outstanding.
    return this.sim.host.frames.length > 0 || this.handlersOut > 0 || this.sim.host.timers.some((t) => t.delay === 100 && !t.interval) || this.processing?.has(rt);
  }

  runActs(acts, source, self) {
    let group = null;
    for (const act of acts) {
      const h = this.runAct(act, source, self);
      if (h && h.rec && h.kind === 'log' && source !== 'render' && !this.cfg.mixed) {
        if (group && group.key === h.key && group.rt === h.rt) group.members.push(h);
        else {
          group = { key: h.key, rt: h.rt, members: [h] };
          this.groups.push(group);
        }
      }
    }
    this.groups = this.groups.filter((g) => g.members.length > 1 || g === group);
  }

  runAct(act, source, self) {
    const { opts, rank, key } = this.options(act.o, source);
    switch (act.a) {
      case 'log':
      case 'noop':
      case 'view':
      case 'small':
      case 'force': {
        const rec = act.self ? self ?? this.pickRec(act.n) : this.pickRec(act.n, act.dead);
        if (!rec || !rec.dispatch) return null;
        if (source === 'render' && rec !== self) return null;
        if (!rec.mounted && source !== 'render') return null;
        const quiet = !rec.gone && !rec.leftover && !this.ownPending(rec) && !rec.dirty && !this.uncommitted.has(rec) && source !== 'render';
        let handle;
        const info = { rt: rec.rt, rank, key, rec, kind: act.a, source, sync: rank === 0 };
        switch (act.a) {
          case 'log': {
            const id = ++this.actSerial;
            const before = this.handles.length;
            rec.acts.push((info.entry = { id }));
            handle = rec.dispatch({ id }, opts);
            info.actId = id;
            void before;
            break;
          }
          case 'noop':
            info.noop = true;
            info.atOnce = quiet;
            handle = rec.dispatch(NOOP, opts);
            break;
          case 'view': {
            const seq = ++this.actSerial;
            if (act.view) tidy(act.view);
            info.viewSeq = seq;
            handle = rec.setView({ seq, view: act.view ?? null }, opts);
            break;
          }
          case 'small': {
            const value = SMALLS[act.i];
            const payload = act.fn ? SMALL_FNS[act.fn - 1] : value;
            rec.smallActs.push((info.entry = { payload }));
            info.small = true;
            // A state that stays the same while nothing is pending must not render.
            const cur = rec.snap ? rec.snap.small : undefined;
            const next = typeof payload === 'function' ? payload(cur) : payload;
            if (quiet && Object.is(cur, next)) {
              info.noop = true;
              info.atOnce = true;
            }
            handle = rec.setSmall(payload, opts);
            break;
          }
          case 'force':
            handle = rec.context.forceUpdate(opts);
            info.forced = rec.renders;
            break;
        }
        this.sim.probe('act-' + act.a + '-' + source);
        if (rec.gone) this.sim.probe('act-on-removed');
        return this.track(handle, info);
      }
      case 'root':
      case 'unmount': {
        if (act.view) tidy(act.view);
        const root = this.roots[act.r % this.roots.length];
        const info = { rt: root.rt, rank, key, kind: act.a, root, source, sync: rank === 0 };
        if (act.o?.h) opts.handler = this.makeHandler(act.o.h, info);
        let handle;
        if (act.a === 'root') {
          const snap = this.snapFor(root, act.view, 0, 'r' + this.serial, 's' + (this.serial % 3));
          info.snap = snap;
          snap.n = this.handles.length;
          // Calls of unmount that this one waits with.
          snap.anew = this.cfg.mixed || act.o?.h ? [] : this.handles.filter((u) => u.kind === 'unmount' && u.root === root && u.state === 'p' && !u.handler && u.key === key);
          root.last = act.view;
          const value = this.build(act.view.d, snap, '');
          handle = root.root.render(this.cfg.bare ? value : this.Shell({ snap, value }), opts);
        } else {
          info.snap = null;
          info.wasEmpty = root.snap === null;
          root.last = null;
          handle = root.root.unmount(opts);
        }
        this.sim.probe('act-' + act.a + '-' + source);
        const h = this.track(handle, info);
        (root.span ??= []).push(h);
        return h;
      }
    }
    return null;
  }

  makeHandler(kind, info) {
    info.handler = kind;
    info.handlerCalls = 0;
    const S = this;
    const { host } = this.sim;
    return (commit) => {
      info.handlerCalls++;
      if (info.handlerCalls > 1) S.fail('handler', `commit handler called ${info.handlerCalls} times`);
      S.sim.probe('handler-' + kind);
      if (!S.cfg.bare) {
        if (info.snap && info.root.snap === info.snap) S.fail('handler', `${info.kind} ${info.n} is in effect before its handler committed it`);
        S.verify('before a commit handler commits', 'handler');
      }
      S.handlersOut++;
      const doCommit = () => {
        commit();
        // From here on the new content is there, whole.
        if (S.cfg.bare) {
          queueMicrotask(() => S.rootCommitted(info));
          return;
        }
        if (info.root.snap !== info.snap) {
          S.fail('handler', `${info.kind} ${info.n} is not in effect right after its handler committed it`);
        }
        S.verify('right after a commit handler committed', 'handler');
      };
      const wait = (ms) => new Promise((resolve) => host.setTimeout(resolve, ms));
      const done = () => {
        S.handlersOut--;
        info.handlerDone = true;
      };
      switch (kind) {
        case 'now':
          doCommit();
          done();
          return undefined;
        case 'later':
          return wait(30).then(doCommit).then(done);
        case 'wait':
          doCommit();
          return wait(30).then(done);
        case 'reject':
          return wait(5).then(() => {
            done();
            S.sim.fault('handler-reject');
            S.markAborted(info.rt, null);
            throw S.newFault(info.rt);
          });
        case 'never':
          // What is rendered is not wanted.
          return wait(5).then(() => {
            done();
            S.sim.fault('handler-no-commit');
            S.markAborted(info.rt, null);
          });
        case 'throw':
          done();
          S.sim.fault('handler-throw');
          S.markAborted(info.rt, null);
          throw S.newFault(info.rt);
        case 'lateReject':
          doCommit();
          return wait(5).then(() => {
            done();
            S.sim.fault('handler-late-reject');
            throw S.newFault(info.rt);
          });
      }
      return undefined;
    };
  }

  onRejected(h, fault) {
    const known = this.faults.get(fault.tag);
    if (known.key === null) known.key = h.key;
    known.hits++;
    if (fault.rt !== h.rt) {
      this.fail('reject-scope', `update ${h.n} of runtime ${h.rt} was rejected by a fault under runtime ${fault.rt}`);
    } else if (known.key !== h.key && !this.cfg.mixed) {
      this.fail('reject-scope', `update ${h.n} (${h.key}) was rejected together with updates of priority ${known.key}`);
    }
  }

  newFault(rt) {
    const tag = ++this.faultSerial;
    this.faults.set(tag, { key: null, hits: 0, at: this.boundary });
    this.freshFaults.push(tag);
    this.sim.note('fault ' + tag);
    return new Fault(tag, rt);
  }

  onRootCommit(root, snap) {
    if (this.aborted.has(snap.serial)) this.fail('effect-uncommitted', `an aborted render of ${root.uid} was committed`);
    if (root.snap !== null && this.faults.size === 0) {
      for (const u of snap.anew) {
        // One that was processed while there was nothing may not be reported yet.
        const over = this.handles.some((o) => o.n > u.n && o.n < snap.n && o.root === root && o.key === u.key && o.snap?.shown);
        if (over) continue;
        if (u.state === 'p' && !(root.emptied > u.n)) this.fail('rootstate', `${root.uid} shows render ${snap.n} without unmount ${u.n}, called before it, having taken effect`);
        else this.sim.probe('unmount and render in one batch');
      }
    }
    root.shown = snap.n;
    snap.shown = true;
    root.commit(snap);
    this.commits++;
    this.sem(`root ${root.uid} ${snap.n}`);
    for (const [path, props] of snap.placed) {
      const child = root.live.get(path);
      if (!child || child.gone || !child.snap) {
        this.fail('effect-order', `effects at the root ${root.uid} ran before those of its child at ${path}`);
      } else if (child.snap.props !== props && !this.propsEqual(child.ty, child.snap.props, props)) {
        this.fail('effect-order', `effects at the root ${root.uid} ran before its child ${child.uid} was committed with its new props`);
      }
    }
    this.checkOwnRefs(root, 'in an effect');
    this.checkEffectDom(root, snap);
  }

  onRootUnmount(root) {
    this.sem(`root ${root.uid} unmounted`);
    for (const path of root.snap?.placed.keys() ?? []) {
      const child = root.live.get(path);
      if (!child || child.gone) this.fail('effect-order', `cleanup at the root ${root.uid} ran after that of its child at ${path}`);
    }
    this.checkOwnRefs(root, 'in the cleanup on removal');
    root.commit(null);
    root.emptied = this.handles.length;
    root.epoch = (root.epoch ?? 0) + 1;
    this.commits++;
  }

  /** A finished render was shown, a finished unmount emptied the root, unless a later
   *  call of the same priority, processed with it, took its place. */
  checkRootVisible(h) {
    if (this.cfg.bare || h.state !== 'ok') return;
    const { root } = h;
    const done = h.snap ? h.snap.shown : h.wasEmpty || root.snap === null || root.emptied > h.n;
    if (done || this.handles.some((o) => o.n > h.n && o.root === root && o.state !== 'p' && (this.cfg.mixed || o.rank === h.rank))) return;
    this.fail('visible', `${h.kind} ${h.n} of ${root.uid} was reported finished but did not take effect`);
  }

  rootCommitted(info) {
    if (!this.cfg.bare) {
      return;
    }
    if (info.committed) return;
    info.committed = true;
    info.root.commit(info.snap);
    this.commits++;
  }

  onSettled(h, ok, error) {
    h.state = ok ? 'ok' : 'err';
    this.pending.delete(h);
    h.rec?.own.delete(h);
    h.settledAt = this.boundary;
    this.sim.note(`settled ${h.n} ${h.kind} ${h.key} ${ok ? 'ok' : 'err'}`);
    this.sem(`settled ${h.n} ${ok}`);
    this.sim.probe(ok ? 'settled-ok' : 'settled-err');
    this.resolvedInDrain.push(h);
    if (h.handler) {
      if (h.handlerCalls === 1 && !h.handlerDone && h.handler !== 'throw') {
        this.fail('handler', 'update with a commit handler settled before the handler was done');
      }
      if (ok && h.handlerCalls !== 1) {
        this.fail('handler', `update with a commit handler finished although the handler was called ${h.handlerCalls} times`);
      }
    }
    if (ok && h.handler === 'never') {
      h.state = 'err'; // without effect
      if (h.snap?.shown && !this.cfg.bare) this.fail('handler', `${h.kind} ${h.n} took effect although its handler never committed it`);
      return;
    }
    if (!ok) {
      if (h.entry) h.entry.rejected = true; // may be applied later, or not
      if (h.rec) {
        h.rec.dirty = true;
        h.rec.leftover = true; // its action may still wait in the queue
      }
      let fault = error;
      for (let i = 0; i < 4 && fault && !(fault instanceof Fault); i++) fault = this.misuses.get(fault) ?? fault.cause;
      if (!(fault instanceof Fault) && this.misused !== null) {
        // what the library made of a component that called too few hooks
        fault = this.misused;
        this.misuses.set(error, fault);
        this.misused = null;
      }
      if (!(fault instanceof Fault)) {
        this.fail('reject-cause', `update ${h.n} was rejected with ${error?.stack ?? error}, which nobody injected`);
        return;
      }
      if (fault.where !== undefined) {
        const { core } = this.sim.lib;
        if (!(error instanceof core.RenderError)) {
          this.fail('reject-cause', `update ${h.n} was rejected with ${error?.stack ?? error} for an error of a component`);
        } else if (!this.cfg.prod) {
          const where = (error.message.match(/\b(Comp\d|Shell|DOMRoot)\b/g) ?? []).join();
          this.sim.probe('stack-' + Math.min(5, fault.where.split(',').length));
          if (where !== fault.where) this.fail('reject-cause', `the error of update ${h.n} names ${where} instead of ${fault.where}`);
        }
      }
      this.onRejected(h, fault);
      return;
    }
    if (h.root) {
      this.rootCommitted(h);
    } else if (h.rec) {
      const { rec } = h;
      if (!rec.gone && rec.mounted && !rec.dirty && rec.snap) {
        if (h.actId !== undefined && !rec.snap.log.includes(h.actId)) {
          this.fail('visible', `action ${h.actId} of ${rec.uid} was reported finished but is not shown (${rec.snap.tag})`);
        }
        if (h.viewSeq !== undefined && rec.snap.viewSeq < h.viewSeq) {
          this.fail('visible', `view ${h.viewSeq} of ${rec.uid} was reported finished but ${rec.snap.viewSeq} is shown`);
        }
        if (h.forced !== undefined && rec.renders <= h.forced) {
          this.fail('force', `forced update of ${rec.uid} finished without a render`);
        }
      }
    }
  }

  // ---- boundary checks ------------------------------------------------------------------

  check() {
    this.boundary++;
    this.processRejections();
    this.verify('between tasks');
    this.checkLedgers();
    this.checkGroups();
    this.checkOrder();
    this.checkSync();
    this.checkGrants();
    this.checkSpans();
    this.resolvedInDrain = [];
  }

  processRejections() {
    this.misused = null;
    for (const tag of this.freshFaults) {
      if (this.faults.get(tag).hits === 0) {
        this.fail('reject-lost', `fault ${tag} was thrown while rendering or committing but no update was rejected with it`);
      }
    }
    if (this.freshFaults.length > 0) this.freshFaults = [];
    for (const h of this.resolvedInDrain) {
      if (!h.root) continue;
      this.checkRootVisible(h);
      for (const o of this.pending) {
        if (o.root === h.root && o.n < h.n && o.key === h.key) {
          this.fail('root-order', `${h.kind} ${h.n} of ${h.root.uid} took effect before the earlier ${o.kind} ${o.n} of the same priority`);
        }
      }
    }
  }

  /** Once all calls of a root are settled, the last of equal priority has won. */
  checkSpans() {
    if (this.cfg.bare) return;
    for (const root of this.roots) {
      const { span } = root;
      if (!span || span.length === 0 || span.some((h) => h.state === 'p')) continue;
      root.span = [];
      const last = span[span.length - 1];
      if (span.some((h) => h.state !== 'ok' || h.key !== last.key)) continue;
      if (span.length > 1) this.sim.probe('root-span');
      if (root.snap !== last.snap) {
        this.fail('rootlast', `all calls of ${root.uid} (${span.map((h) => h.kind + ' ' + h.n)}) have finished but the last is not in effect`);
      }
    }
  }

  /**
   * What the host has granted: an update is processed only once the host has run a
   * callback that was requested for its most urgent priority. While updates of a
   * granted priority are being processed, further ones may join.
   */
  watchGrants(runtime, adapter) {
    const { requestCallback } = adapter;
    const { schedule } = runtime;
    const staged = new Set();
    const open = new Set(); // updates that are not done
    let requests = null;
    const world = { staged, open };
    (this.grants ??= []).push(world);
    adapter.requestCallback = (callback, options) => {
      const request = { keys: [], options };
      if (requests !== null) requests.push(request);
      else request.keys = ['any'];
      return requestCallback.call(
        adapter,
        () => {
          for (const key of request.keys) staged.add(key);
          return callback();
        },
        options,
      );
    };
    runtime.schedule = (transaction, options) => {
      const keys = urgency(options ?? {});
      if (keys.length === 0) keys.push(adapter.getTaskPriority());
      const { prepare } = transaction;
      const self = this;
      transaction.prepare = function (...args) {
        if (keys[0] !== 'sync') {
          self.sim.probe('granted');
          if (!staged.has(keys[0]) && !staged.has('any')) self.fail('ungranted', `an update (${keys}) is processed although the host has run no callback for it, only for ${[...staged]}`);
        }
        return prepare.apply(this, args);
      };
      const outer = requests;
      requests = [];
      try {
        const handle = schedule.call(runtime, transaction, options);
        const due = options?.priority ?? (options?.handler !== undefined ? 'user-blocking' : options?.transition !== undefined || options?.delay !== undefined ? 'background' : keys[0]);
        for (const request of requests) {
          request.keys = keys;
          const { priority, delay } = request.options ?? {};
          if (priority !== due || delay !== options?.delay) {
            this.fail('ungranted', `the host was asked to run an update (${keys}) with priority ${priority} and delay ${delay} instead of ${due} and ${options?.delay}`);
          }
        }
        const entry = { key: keys[0] };
        open.add(entry);
        const close = () => open.delete(entry);
        handle.finished.then(close, close);
        return handle;
      } finally {
        requests = outer;
      }
    };
  }

  checkGrants() {
    for (const { staged, open } of this.grants ?? []) {
      if (staged.size > 0 && ![...open].some((h) => h.key === 'sync' || staged.has(h.key))) staged.clear();
    }
  }

  checkSync() {
    // issued while nothing was being processed => visible before the next task
    for (const h of this.pending) {
      if (h.sync && h.free && h.at < this.boundary) {
        this.fail('sync', `synchronous update ${h.n} still not visible at the next task`);
        h.free = false;
      }
      if (h.atOnce && h.at < this.boundary) {
        this.fail('noop', `dispatch ${h.n} that changes nothing did not finish at once`);
        h.atOnce = false;
      }
    }
  }

  checkGroups() {
    if (this.groups.length === 0) return;
    const keep = [];
    for (const g of this.groups) {
      let shown = 0;
      let hidden = 0;
      let open = false;
      for (const h of g.members) {
        const { rec } = h;
        if (h.state === 'p') open = true;
        if (h.state === 'err' || rec.gone || rec.dirty || !rec.snap) continue;
        if (rec.snap.log.includes(h.actId)) shown++;
        else hidden++;
      }
      if (shown > 0 && hidden > 0 && !g.members.some((h) => h.state === 'err')) {
        this.fail('torn', `updates ${g.members.map((h) => h.n)} issued together: ${shown} shown, ${hidden} not`);
      } else if (open) keep.push(g);
    }
    this.groups = keep;
    this.sim.probe('groups', 0);
  }

  checkOrder() {
    const { host } = this.sim;
    const done = this.resolvedInDrain;
    // merged: two lanes in one commit
    const lanes = new Map();
    for (const h of done) {
      if (h.kind !== 'root' || h.state !== 'ok' || h.rank < 2 || h.handler) continue;
      const other = lanes.get(h.rt);
      if (other !== undefined && other.rank !== h.rank && !this.cfg.mixed) {
        this.fail('merged', `updates ${other.n} (${other.key}) and ${h.n} (${h.key}) of different priorities were committed together`);
      }
      lanes.set(h.rt, h);
    }
    if (this.cfg.mixed) return;
    // order among updates that were all ready
    for (const w of this.orderWatch ?? []) {
      for (const h of done) {
        if (h.rt !== w.rt || h.id < 0) continue; // (-1: nothing was scheduled)
        if (!w.set.has(h)) {
          w.first ??= h.rank;
          continue;
        }
        w.set.delete(h);
        if (w.first === undefined || w.first === h.rank) {
          if (w.open) {
            w.first = h.rank;
            continue;
          }
        }
        w.open = false;
        for (const o of w.set) {
          if (o.rank < h.rank && o.state === 'p') {
            this.fail('order', `update ${h.n} (${h.key}) finished before the more urgent ${o.n} (${o.key}) although both were ready`);
            break;
          }
        }
      }
    }
    this.orderWatch = (this.orderWatch ?? []).filter((w) => w.set.size > 1);
    if (!host.hasCallbackWork() && this.pending.size > 1 && this.orderWatch.length < 3) {
      for (let rt = 0; rt < this.runtimes.length; rt++) {
        const set = new Set([...this.pending].filter((h) => h.rt === rt && !h.atOnce));
        if (set.size > 1 && new Set([...set].map((h) => h.rank)).size > 1) {
          this.orderWatch.push({ rt, set, open: true, first: undefined });
          this.sim.probe('order-watch');
        }
      }
    }
  }

  // What the application itself put into a container before rendering into it.
  ownNodes(el, name) {
    const kinds = ['h', 'h', 't', 'c', 'ht', 'tc', 'th', ''][hash32(name, this.sim.seed) % 8];
    return [...kinds].map((k) => this.addForeign(el, k, null));
  }

  addForeign(el, kind, before) {
    const doc = this.document;
    const node = kind === 'h' ? doc.createElement('hr') : kind === 't' ? doc.createTextNode('own') : doc.createComment('own');
    el.insertBefore(node, before);
    this.foreign.add(node);
    return node;
  }

  verify(when, also) {
    const reached = new Set();
    const elems = new Map();
    const list = [];
    const out = { reached, elems, list, when };
    const expectedByContainer = new Map();
    let digest = '';
    for (const root of this.roots) {
      const tokens = [];
      if (root.snap) this.expand(root.snap.view.d, root.snap, '', tokens, out, expectedByContainer, true);
      expectedByContainer.set(root.el, tokens);
    }
    for (const c of this.containers) {
      const tokens = expectedByContainer.get(c.el) ?? [];
      const bad = this.compare(c.el, tokens, out, c.name);
      if (bad !== null) {
        if (when === 'between tasks' && this.commits === this.lastCommits) {
          this.fail('early', `the page changed although nothing was committed: ${c.name}: ${bad}`);
        }
        if (also) this.fail(also, `${when}: ${c.name}: ${bad}`);
        const root = this.roots.find((r) => r.el === c.el);
        if (root && root.snap === null && !this.cfg.bare) this.fail('rootdom', `${when}: ${c.name} was unmounted or never rendered: ${bad}`);
        this.fail(c.name.includes('/p') ? 'portal' : 'dom', `${when}: ${c.name}: ${bad}`);
        return;
      }
      // foreign nodes still there, in order
      for (let i = 0; i < c.foreign.length; i++) {
        const f = c.foreign[i];
        if (f.parentNode !== c.el) this.fail('foreign', `${when}: a node the application put into ${c.name} is gone`);
        if (i > 0 && !(c.foreign[i - 1].compareDocumentPosition(f) & 4)) {
          this.fail('foreign', `${when}: nodes the application put into ${c.name} changed places`);
        }
      }
      digest += tokens.length + ';';
    }
    for (const rec of this.recs) {
      if (rec.mounted && !rec.gone && !reached.has(rec)) {
        this.fail('zombie', `${when}: ${rec.uid} (${rec.pu}${rec.path}) is still mounted but not part of any committed view`);
      }
    }
    if (when !== 'between tasks') return;
    // graveyard
    for (const [el, info] of this.elems) {
      if (!elems.has(el)) {
        if (info.d.e !== undefined && this.graveyard.length < 12) this.graveyard.push(el);
      }
    }
    this.elems = elems;
    this.elemList = list;
    if (this.commits !== this.lastCommits) {
      this.lastCommits = this.commits;
      let s = '';
      for (const r of this.roots) s += r.el.innerHTML + '\n';
      this.stateDigests.add(hash32(s.replace(/i\d+/g, 'i').replace(/\d{2,}/g, '#')));
      this.sem('dom ' + hash32(s));
    }
  }

  expand(d, snap, path, tokens, out, byContainer, bare) {
    if (!d) return;
    const owner = snap.owner;
    switch (d.k) {
      case 't':
        if (!bare && d.v !== '') tokens.push({ c: d.v });
        return;
      case 'e': {
        const p = path + 'e' + d.i;
        let n = 0;
        const walk = (items, to) => {
          for (const it of items) {
            if (typeof it === 'string') to.push({ s: it });
            else if (Array.isArray(it)) {
              const [tag, spec, kids] = it;
              const t = { tag, key: p + '#' + n++, owner, d, spec, kids: [], snap, path: p };
              to.push(t);
              walk(kids, t.kids);
            } else if (it.x) to.push({ s: textOf(snap.small) });
            else this.expand(d.h[it.c], snap, p + '.' + it.c, to, out, byContainer, false);
          }
        };
        walk(SHAPES[d.i], tokens);
        return;
      }
      case 'f':
        d.it.forEach(([key, item], i) => {
          this.expand(item, snap, path + (d.u ? `[${i}]` : `<${key}>`), tokens, out, byContainer, true);
        });
        return;
      case 'c': {
        const p = path + 'c' + d.ty;
        const child = owner.live.get(p);
        const props = snap.placed.get(p);
        if (!child || child.gone || !child.snap) {
          this.fail('dom', `${out.when}: the component at ${owner.uid}${p} is not mounted`);
          return;
        }
        if (out.reached.has(child)) this.fail('identity', `${child.uid} is shown twice`);
        out.reached.add(child);
        const prev = owner.nodes.get(p);
        if (prev !== undefined && prev !== child) {
          this.fail('identity', `${out.when}: the component at ${owner.uid}${p} was replaced: ${prev.uid} by ${child.uid}`);
        }
        owner.nodes.set(p, child);
        const cp = child.snap.props;
        if (cp !== props && !(Object.is(cp.v, props.v) && canon(cp.w) === canon(props.w) && (d.ty === 2 || extra(cp) === extra(props)))) {
          this.fail('props', `${out.when}: ${child.uid} shows props v=${cp.v}, its owner committed v=${props.v}`);
        }
        this.expand(child.snap.view.d, child.snap, '', tokens, out, byContainer, bare);
        return;
      }
      case 'p': {
        const to = [];
        byContainer.set(owner.portal(d.t), to);
        this.expand(d.d, snap, path + 'p' + d.t + '.', to, out, byContainer, true);
        return;
      }
    }
  }

  /** null, or what is wrong. */
  compare(parent, tokens, out, where) {
    let node = parent.firstChild;
    const comments = [];
    let actualText = '';
    let i = 0;
    let expectedText = '';
    const wanted = [];
    const nextElem = () => {
      expectedText = '';
      while (i < tokens.length && tokens[i].tag === undefined) {
        if (tokens[i].c !== undefined) wanted.push(tokens[i].c);
        else expectedText += tokens[i].s;
        i++;
      }
      return tokens[i];
    };
    let want = nextElem();
    for (;;) {
      while (node !== null && (node.nodeType !== 1 || this.foreign.has(node))) {
        if (this.foreign.has(node)) {
          node = node.nextSibling;
          continue;
        }
        if (node.nodeType === 3) actualText += node.data;
        else if (node.nodeType === 8) {
          if (node.data !== '') comments.push(node.data);
        }
        node = node.nextSibling;
      }
      if (actualText !== expectedText) {
        return `${where}: text is ${JSON.stringify(actualText)}, expected ${JSON.stringify(expectedText)}`;
      }
      if (node === null || want === undefined) {
        if (node !== null) return `${where}: unexpected <${node.localName} title=${node.getAttribute('title')}>`;
        if (want !== undefined) return `${where}: <${want.tag}> ${want.owner.uid} ${want.key} is missing`;
        break;
      }
      const bad = this.compareElement(node, want, out, where);
      if (bad !== null) return bad;
      node = node.nextSibling;
      actualText = '';
      i++;
      want = nextElem();
    }
    if (wanted.length > 0) {
      let j = 0;
      for (const c of comments) if (j < wanted.length && c === wanted[j]) j++;
      if (j < wanted.length) {
        this.fail('comment', `${out.when}: ${where}: bound text ${wanted} is not where it was bound (found ${comments})`);
      }
    }
    return null;
  }

  compareElement(el, t, out, where) {
    const { tag, spec, d, snap, owner } = t;
    if (el.localName !== tag) {
      return `${where}: found <${el.localName} title=${el.getAttribute('title')}>, expected <${tag}> ${owner.uid} ${t.key}`;
    }
    const here = where + '/' + tag;
    let attrs = 0;
    if (spec.a || spec.u) {
      attrs++;
      const want = spec.a ? `${d.v}|${owner.uid}|${snap.tag}` : `${owner.uid}:${d.v}`;
      const got = el.getAttribute('title');
      if (got !== want) return `${here}: title is ${got}, expected ${want}`;
    }
    if (spec.k) {
      attrs++;
      const got = [...el.classList].sort().join(' ');
      const want = [`k${d.v}`, `s${owner.uid}`].sort().join(' ');
      if (got !== want) return `${here}: class is ${got}, expected ${want}`;
    }
    if (el.attributes.length !== attrs) return `${here}: has ${el.attributes.length} attributes, expected ${attrs}`;
    const prev = owner.nodes.get(t.key);
    if (prev !== undefined && prev !== el) {
      this.fail('identity', `${out.when}: the <${tag}> at ${owner.uid} ${t.key} was replaced by another node`);
    }
    owner.nodes.set(t.key, el);
    if (spec.r || spec.e) {
      const info = { el, owner, d, snap, path: t.path };
      out.elems.set(el, info);
      out.list.push(info);
    }
    return this.compare(el, t.kids, out, here);
  }

  checkLedgers() {
    // refs
    for (const owner of this.owners.values()) {
      if (!owner.refs || (owner.mounted === false && !owner.isRoot)) continue;
      if (owner.gone && owner.refsChecked) continue;
      const want = [null, null];
      if (owner.snap && !owner.gone) {
        for (const { d, path } of ownElements(owner.snap)) {
          if (d.r === 0 || d.r === 1) want[d.r] = owner.nodes.get(path + '#0');
        }
      }
      for (const k of [0, 1]) {
        if (owner.refs[k].current !== want[k]) {
          const got = owner.refs[k].current;
          if (owner.gone) this.fail('ref-dead', `ref ${k} of removed ${owner.uid} still holds <${got?.localName}>`);
          this.fail('ref', `ref ${k} of ${owner.uid} is ${got ? '<' + got.localName + '>' : got}, expected ${want[k] ? 'the bound element' : 'null'}`);
        }
      }
      if (owner.gone) owner.refsChecked = true;
    }
    // callbacks
    let expected = 0;
    for (const { el, owner, d, snap, path } of this.elemList) {
      if (d.r !== 'cb' && d.r !== 'cbn') continue;
      expected++;
      const list = this.cbs.get(el);
      const serial = d.r === 'cb' ? 0 : snap.serial;
      if (!list || list.length !== 1 || list[0].owner !== owner || list[0].serial !== serial || list[0].path !== path) {
        this.fail('cb', `element callback ${d.r} of ${owner.uid} ${path} is not in effect (have ${list?.map((c) => c.owner.uid + '@' + c.serial)}, expected @${serial})`);
      }
    }
    if (this.cbs.size > expected) {
      const stale = [...this.cbs.keys()].filter((el) => !this.elems.has(el));
      if (stale.length > 0) this.fail('cb-dead', `${stale.length} element callbacks of removed elements were not cleaned up`);
      this.fail('cb', `${this.cbs.size - expected} element callbacks were not cleaned up after their binding was removed`);
    }
    // effects of mounted components agree with what is committed
    for (const rec of this.recs) {
      if (rec.gone) {
        if (!rec.goneChecked) {
          rec.goneChecked = true;
          for (const name in rec.effects) {
            if (rec.effects[name].on) {
              this.fail('effect-left', `effect ${name} of removed ${rec.uid} was not cleaned up`);
              this.fail('effect-pair', `effect ${name} of removed ${rec.uid} was not cleaned up`);
            }
          }
        }
      } else if (rec.mounted && rec.snap !== rec.ledgerSnap) {
        rec.ledgerSnap = rec.snap;
        this.checkEffectsRan(rec, rec.snap);
      }
    }
  }

  // ---- operations -----------------------------------------------------------------------

  exec(op) {
    this.ops++;
    switch (op.op) {
      case 'acts': {
        const busy = [0, 1].map((rt) => this.busy(rt));
        const from = this.handles.length;
        if (op.ev) this.inEvent(op.ev, null, op.acts);
        else this.runActs(op.acts, 'op');
        for (let i = from; i < this.handles.length; i++) {
          const h = this.handles[i];
          if (h.sync && !busy[h.rt]) h.free = true;
        }
        break;
      }
      case 'event':
        this.fireEvent(op);
        break;
      case 'arm': {
        if (op.where === 'mountThrow') {
          if (this.cfg.iso) this.mountThrows[op.n % this.roots.length]++;
          else this.mountThrow++;
          break;
        }
        const rec = this.pickRec(op.n);
        if (!rec) break;
        if (this.cfg.iso && op.acts) op = { ...op, acts: op.acts.filter((a) => actWorld(a, this.roots.length) === rec.world) };
        if (op.where === 'render') rec.armedRender = op.acts;
        else if (op.where === 'effect') rec.armEffect = op.acts;
        else if (op.where === 'cleanup') rec.armCleanup = op.acts;
        else if (op.where === 'throw') rec.armThrow = op.at;
        break;
      }
      case 'mwAdd':
        this.addMiddleware(op.rt % this.runtimes.length);
        break;
      case 'mwRemove':
        this.removeMiddleware(op.n);
        break;
      case 'foreign': {
        // The application adds a node of its own at an end of a container, or takes one away.
        const c = this.containers[op.n % this.containers.length];
        if (op.k === '-') {
          const f = op.first ? c.foreign.shift() : c.foreign.pop();
          if (f === undefined) return;
          f.remove();
          this.sim.probe('foreign-removed');
        } else if (op.first) {
          c.foreign.unshift(this.addForeign(c.el, op.k, c.el.firstChild));
          this.sim.probe('foreign-first');
        } else {
          c.foreign.push(this.addForeign(c.el, op.k, null));
          this.sim.probe('foreign-last');
        }
        break;
      }
    }
  }

  inEvent(type, target, acts) {
    this.eventActs = acts;
    const { window } = this.sim.env;
    const event = new window.Event(type, { bubbles: true, cancelable: true });
    (target ?? this.sim.document.body).dispatchEvent(event);
    this.eventActs = null;
    return event;
  }

  fireEvent(op) {
    const dead = op.dead && this.graveyard.length > 0;
    let el;
    if (dead) el = this.graveyard[op.n % this.graveyard.length];
    else if (this.cfg.iso) {
      const w = op.n % this.roots.length;
      const list = this.elemList.filter((e) => e.owner.world === w);
      if (list.length === 0) return;
      el = list[Math.floor(op.n / this.roots.length) % list.length].el;
    } else if (this.elemList.length > 0) el = this.elemList[op.n % this.elemList.length].el;
    else return;
    // Listeners of the last commit along the path, capturing ones first.
    const capture = [];
    const bubble = [];
    for (let node = el; node !== null; node = node.parentNode) {
      const info = this.elems.get(node);
      if (!info || !info.d.e) continue;
      const entry = `${info.owner.uid} ${info.path} ${info.d.e} ${info.d.e === 'fs' ? 0 : info.snap.serial}`;
      if (info.d.e === 'oc') capture.unshift(entry);
      else bubble.push(entry);
    }
    const expected = [...capture, ...bubble];
    this.listenerCalls = [];
    const { window } = this.sim.env;
    this.eventActs = op.acts && el.isConnected ? op.acts : null;
    const event = new window.Event('click', { bubbles: true, cancelable: true });
    const busy = [0, 1].map((rt) => this.busy(rt));
    const from = this.handles.length;
    el.dispatchEvent(event);
    for (let i = from; i < this.handles.length; i++) {
      const h = this.handles[i];
      if (h.sync && !busy[h.rt]) h.free = true;
    }
    this.eventActs = null;
    const calls = this.listenerCalls;
    this.listenerCalls = null;
    this.sim.probe(dead ? 'event-on-removed' : 'event');
    if (dead && calls.length > 0 && expected.length === 0) this.fail('listener-dead', `event on removed content called [${calls.join('; ')}]`);
    if (calls.join('; ') !== expected.join('; ')) {
      this.fail('listener', `event called [${calls.join('; ')}], the committed listeners are [${expected.join('; ')}]`);
    }
  }

  // ---- phases ---------------------------------------------------------------------------

  onIdle(phase) {
    this.checkStuck(phase);
    for (const rec of this.recs) if (rec.gone && rec.effects.mount?.on) this.fail('leak', 'x');
    switch (phase) {
      case 0: {
        // Disarm; everything that could still be waiting is done. Strict checks.
        this.mountThrow = 0;
        this.mountThrows = this.roots.map(() => 0);
        for (const rec of this.recs) {
          rec.armThrow = null;
          rec.armedRender = null;
          rec.armEffect = null;
          rec.armCleanup = null;
        }
        this.checkComplete();
        if (this.cfg.recover === false) return true;
        // Recovery: render everything again, without faults.
        for (const root of this.roots) {
          if (root.last !== null && root.snap?.view !== root.last) {
            this.runActs([{ a: 'root', r: this.roots.indexOf(root), view: root.last }], 'recovery');
          }
        }
        return true;
      }
      case 1:
        for (const rec of this.liveRecs()) this.runActs([{ a: 'force', self: 1 }], 'recovery', rec);
        return true;
      case 2:
        this.checkComplete(true);
        for (const root of this.roots) {
          this.runActs([{ a: 'unmount', r: this.roots.indexOf(root) }], 'end');
        }
        return true;
      case 3:
        this.checkGone();
        // updates of removed components change nothing
        if (this.recs.length > 0) {
          for (let n = 0; n < 3; n++) {
            this.runActs([{ a: ['log', 'force', 'view'][n], n: n * 7, dead: 1, o: n === 1 ? { s: 1 } : undefined }], 'end');
          }
        }
        return true;
      case 4:
        this.checkGone();
        return false;
    }
    return false;
  }

  checkStuck(phase) {
    if (this.pending.size > 0) {
      const h = [...this.pending][0];
      this.fail('stuck', `phase ${phase}: the host is idle but update ${h.n} (${h.kind} ${h.key}, from ${h.source}) never finished; ${this.pending.size} waiting`);
    }
    for (const h of this.handles) {
      if (h.handler && h.handlerCalls !== 1 && h.state === 'ok') {
        this.fail('handler', `commit handler called ${h.handlerCalls} times`);
      }
    }
  }

  checkComplete(strict) {
    for (const rec of this.liveRecs()) {
      if (!rec.snap) continue;
      if (rec.dirty && !strict) continue;
      if (strict && rec.dirty) this.fail('dirty', `${rec.uid} was not rendered by the recovery`);
      this.checkFold(rec, rec.snap.log, { seq: rec.snap.viewSeq }, true);
      if (!this.smallPossible(rec)) {
        this.fail('fold', `${rec.uid}: small state is ${String(rec.snap.small)} after everything settled, which the dispatches do not give`);
      }
    }
    for (const root of this.roots) {
      // The last call wins when all calls had the same priority.
      void root;
    }
  }

  checkGone() {
    for (const c of this.containers) {
      const left = [...c.el.childNodes].filter((n) => !this.foreign.has(n));
      if (left.length > 0) {
        if (c.name.includes('/p')) this.fail('portal-leak', `${left.length} nodes left in the portal target ${c.name} after everything was unmounted`);
        this.fail('leak', `${left.length} nodes (first: ${left[0].nodeName}) left in ${c.name} after everything was unmounted`);
      }
    }
    if (this.liveRecs().length > 0) this.fail('leak', 'components still mounted after everything was unmounted');
    if (this.cbs.size > 0) this.fail('leak', 'element callbacks not cleaned up after everything was unmounted');
    for (const el of this.graveyard) {
      this.listenerCalls = [];
      const { window } = this.sim.env;
      el.dispatchEvent(new window.Event('click', { bubbles: true, cancelable: true }));
      if (this.listenerCalls.length > 0) this.fail('listener-dead', `listener called on removed content: ${this.listenerCalls}`);
      this.listenerCalls = null;
    }
  }

  // ---- operation generator --------------------------------------------------------------

  gen(rng) {
    this.gen_ ??= new Gen(rng, this.cfg);
    const g = this.gen_;
    const { cfg } = this;
    const live = this.liveRecs().length;
    const n = () => rng.int(64);
    if (this.opCount === undefined) this.opCount = 0;
    this.opCount++;
    if (this.opCount <= this.roots.length && rng.chance(0.9)) {
      return { op: 'acts', acts: [{ a: 'root', r: this.opCount - 1, view: g.view(cfg.depth ?? 3, cfg.size), o: this.genOpts(rng, true) }] };
    }
    const kind = rng.weighted({
      acts: 8,
      event: cfg.events === false ? 0 : cfg.wEvent ?? 1.5,
      arm: cfg.arms === false ? 0 : cfg.faults ? 3 : cfg.wArm ?? 1.5,
      mwAdd: cfg.mwOps ? 0.5 : 0,
      mwRemove: cfg.mwOps ? 0.4 : 0,
      foreign: cfg.foreign === false ? 0 : 0.25,
    });
    switch (kind) {
      case 'acts': {
        const op = { op: 'acts', acts: this.genActs(rng, g, live) };
        if (rng.chance(0.3)) op.ev = rng.pick(EVENT_TYPES);
        return op;
      }
      case 'event': {
        const op = { op: 'event', n: n() };
        if (rng.chance(0.3)) op.dead = 1;
        if (rng.chance(0.5)) op.acts = this.genActs(rng, g, live);
        return op;
      }
      case 'arm': {
        const where = rng.weighted({
          render: cfg.renderDispatch ? 1 : 0,
          effect: 1,
          cleanup: 0.7,
          throw: cfg.faults ? 3 : 0,
          mountThrow: cfg.faults ? 1 : 0,
        });
        const op = { op: 'arm', where, n: n() };
        if (where === 'throw') op.at = rng.pick(cfg.misuse ? ['early', 'within', 'fewer', 'more', 'end'] : ['start', 'mid', 'end', 'memo']);
        else if (where === 'render') op.acts = [{ ...this.genCompAct(rng, g), self: 1 }];
        else if (where !== 'mountThrow') op.acts = this.genActs(rng, g, live, true);
        return op;
      }
      case 'mwAdd':
        return { op: 'mwAdd', rt: rng.int(2) };
      case 'mwRemove':
        return { op: 'mwRemove', n: rng.int(8) };
      case 'foreign':
        return { op: 'foreign', n: rng.int(8), k: rng.pick(['h', 't', 'c', '-']), first: rng.int(2) };
    }
    return null;
  }

  genOpts(rng, root) {
    const { cfg } = this;
    const kind = rng.weighted({
      none: 3,
      s: cfg.wSync ?? 1.2,
      p: cfg.wPrio ?? 3,
      t: cfg.wTrans ?? 1,
      d: cfg.delays === false ? 0 : 0.5,
      h: root && cfg.handlers ? cfg.wHandler ?? 1.5 : 0,
      mix: cfg.mixed ? 2 : 0,
    });
    switch (kind) {
      case 's':
        return { s: 1 };
      case 'p':
        return { p: rng.int(3) };
      case 't':
        return { t: rng.int(4) };
      case 'd':
        return { d: rng.pick([10, 50, 150]) };
      case 'h':
        return { h: rng.pick(cfg.faults ? ['now', 'later', 'wait', 'reject', 'lateReject', 'throw', 'never'] : ['now', 'later', 'wait']) };
      case 'mix': {
        const o = {};
        if (rng.chance(0.4)) o.s = 1;
        if (rng.chance(0.5)) o.p = rng.int(3);
        if (rng.chance(0.5)) o.t = rng.int(3);
        if (rng.chance(0.2)) o.d = 20;
        return o;
      }
    }
    return undefined;
  }

  genActs(rng, g, live, small) {
    const { cfg } = this;
    const count = 1 + (rng.chance(cfg.pMulti ?? 0.45) ? 1 + rng.int(small ? 1 : 3) : 0);
    const acts = [];
    const shared = rng.chance(0.6) ? { o: this.genOpts(rng, false) } : null;
    for (let i = 0; i < count; i++) {
      const kind = rng.weighted({ comp: live > 0 ? cfg.wCompAct ?? 6 : 0.2, root: cfg.wRootAct ?? 2.5, unmount: cfg.unmounts ?? 0.4 });
      let act;
      if (kind === 'comp') act = this.genCompAct(rng, g);
      else if (kind === 'root') {
        const r = rng.int(this.roots.length);
        const base = this.roots[r].last;
        const view = base && rng.chance(0.75) ? g.mutate(base, cfg.depth ?? 3) : g.view(cfg.depth ?? 3, cfg.size);
        act = { a: 'root', r, view };
      } else act = { a: 'unmount', r: rng.int(this.roots.length) };
      const o = shared ? shared.o : this.genOpts(rng, kind !== 'comp');
      if (o) act.o = o;
      acts.push(act);
    }
    return acts;
  }

  genCompAct(rng, g) {
    const { cfg } = this;
    const n = rng.int(64);
    const a = rng.weighted(cfg.wActs ?? { log: 4, noop: 0.7, view: 3.5, small: 1.5, force: 0.8 });
    const act = { a, n };
    if (rng.chance(cfg.pDead ?? 0.06)) act.dead = 1;
    if (a === 'view') {
      const rec = this.pickRec(n, act.dead);
      const cur = rec?.snap?.view;
      if (rng.chance(0.1)) act.view = null;
      else act.view = cur && rng.chance(0.75) ? g.mutate(cur, 2) : g.view(2, cfg.size);
    } else if (a === 'small') {
      act.i = rng.int(SMALLS.length);
      if (rng.chance(0.3)) act.fn = 1 + rng.int(SMALL_FNS.length);
    }
    const o = this.genOpts(rng, false);
    if (o) act.o = o;
    return act;
  }
}

/** The root whose world an act belongs to (cfg.iso). */
function actWorld(act, roots) {
  return (act.r ?? act.n) % roots;
}

/** The script without its injected faults. */
export function stripFaults(script) {
  const calm = (acts) =>
    acts?.map((a) => (['reject', 'lateReject', 'throw', 'never'].includes(a.o?.h) ? { ...a, o: { ...a.o, h: 'now' } } : a));
  return script
    .filter((op) => !(op.op === 'arm' && (op.where === 'throw' || op.where === 'mountThrow')))
    .map((op) => (typeof op === 'object' && op.acts ? { ...op, acts: calm(op.acts) } : op));
}

/** The script with every portal replaced by nothing. */
export function stripPortals(script) {
  const walk = (d) => {
    if (!d) return d;
    if (d.k === 'p') return null;
    if (d.k === 'e') return { ...d, h: d.h.map(walk) };
    if (d.k === 'f') return { ...d, it: d.it.map(([k, x]) => [k, walk(x)]) };
    if (d.k === 'c') return { ...d, w: d.w && { ...d.w, d: walk(d.w.d) } };
    return d;
  };
  return script.map((op) =>
    typeof op === 'object' && op.acts ? { ...op, acts: op.acts.map((a) => (a.view ? { ...a, view: { ...a.view, d: walk(a.view.d) } } : a)) } : op,
  );
}

/** The script with only what is done to one root and the components below it. */
export function onlyWorld(script, cfg, w) {
  const out = [];
  for (const op of script) {
    if (typeof op !== 'object') {
      out.push(op);
    } else if (op.op === 'acts') {
      const acts = op.acts.filter((a) => actWorld(a, cfg.roots) === w);
      if (acts.length > 0) out.push({ ...op, acts });
    } else if (op.op === 'arm' || op.op === 'event') {
      const acts = op.acts?.filter((a) => actWorld(a, cfg.roots) === w);
      if (op.n % cfg.roots === w) out.push({ ...op, acts });
      else if (op.op === 'event' && acts?.length > 0) out.push({ op: 'acts', acts, ev: 'click' });
    } else out.push(op);
  }
  return out;
}

/** Observes what a bundled middleware reports for an update that commits or fails. */
function wrapMw(mw, mark, onCommit, onFail) {
  return {
    handle(update, render) {
      let thrown = null;
      const before = mark();
      let commit;
      try {
        commit = mw.handle(update, (u) => {
          try {
            return render(u);
          } catch (error) {
            thrown = { error };
            throw error;
          }
        });
      } catch (error) {
        if (thrown) onFail(update, before);
        throw error;
      }
      return () => {
        const from = mark();
        commit();
        onCommit(update, from);
      };
    },
  };
}

const EMPTY = [];
const NO_VIEW = { seq: 0, view: null };
const NOOP = { noop: true };
const SMALL_FNS = [
  (x) => (typeof x === 'number' && x < 1e6 ? x + 1 : 0),
  (x) => String(x).slice(0, 8) + '.',
  (x) => x,
];

function logReducer(state, action) {
  return action.noop ? state : [...state, action.id];
}

function logTag(log) {
  return log.join(',');
}

/** Elements with refs of the owner's own view (not those of child components). */
function ownElements(snap) {
  if (snap.own === undefined) {
    const out = [];
    const walk = (d, path) => {
      if (!d) return;
      if (d.k === 'e') {
        const p = path + 'e' + d.i;
        if (d.r !== null && d.r !== undefined) out.push({ d, path: p });
        d.h.forEach((c, i) => walk(c, p + '.' + i));
      } else if (d.k === 'f') {
        d.it.forEach(([key, item], i) => walk(item, path + (d.u ? `[${i}]` : `<${key}>`)));
      } else if (d.k === 'p') walk(d.d, path + 'p' + d.t + '.');
    };
    walk(snap.view.d, '');
    snap.own = out;
  }
  return snap.own;
}

/** Dependencies that come and go. */
function varyingDeps(x) {
  switch (SMALLS.findIndex((y) => Object.is(x, y)) % 6) {
    case 1:
      return ['a'];
    case 2:
      return ['a', 'b'];
    case 3:
      return null;
    case 4:
      return undefined;
    case 5:
      return ['a', NaN];
  }
  return [];
}

function depsChanged(a, b) {
  return !a || !b || a.length !== b.length || a.some((d, i) => !Object.is(d, b[i]));
}

/** The priorities of an update, the most urgent first. */
function urgency(o) {
  const keys = [];
  if (o.flushSync) keys.push('sync');
  if (o.handler !== undefined) keys.push('handler');
  if (o.priority !== undefined) keys.push(o.priority);
  if (o.transition !== undefined) keys.push('transition' + (o.transition % 24));
  if (o.delay !== undefined) keys.push(o.delay <= 100 ? 'short' : 'long');
  return keys;
}
