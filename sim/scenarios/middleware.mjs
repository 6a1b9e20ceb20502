// Middleware on its own: registered and dropped at any time, around
// updates that succeed, fail while rendering or fail while committing (an effect throws).
// Every root is used until its commit fails, so that nothing follows a broken commit
// under the same root.
class Boom extends Error {}

const KINDS = ['obs', 'log', 'prof'];
const PRIOS = ['user-blocking', 'user-visible', 'background'];

export default class MiddlewareScenario {
  constructor(sim) {
    this.sim = sim;
    this.cfg = sim.cfg;
    this.stateDigests = new Set();
    this.handles = [];
    this.updates = new Map(); // update id -> what is known of it
    this.mws = [];
    this.regs = []; // what is registered, in order
    this.offs = [];
    this.gone = [];
    this.steps = [];
    this.roots = [];
  }

  setup() {
    const { core } = this.sim.lib;
    const S = this;
    this.runtime = new core.Runtime(new core.DOMAdapter(this.sim.document));
    this.Comp = core.createComponent(function Comp({ mode, text }) {
      if (mode === 'render') throw new Boom('render');
      this.useEffect(() => {
        if (mode === 'effect') throw new Boom('effect');
        return () => {
          if (S.armCleanup) {
            S.armCleanup = false;
            throw new Boom('cleanup');
          }
        };
      });
      return core.html`<b>${text}</b>`;
    });
    if (this.cfg.keep) {
      // One that stays, so that every update goes through one.
      this.use(0);
      this.offs.pop();
    }
    for (let i = 0; i < (this.cfg.mws ?? 2); i++) this.use(i);
  }

  gen(rng) {
    const op = rng.weighted({ update: 6, use: 1.2, drop: 0.8, again: 0.4, step: 1, nap: 1 });
    switch (op) {
      case 'update': {
        const list = [];
        for (let i = 1 + rng.int(3); i > 0; i--) {
          list.push({ r: rng.int(4), m: rng.weighted({ ok: 5, render: 1, effect: 1.2, cleanup: 0.4 }), p: rng.int(PRIOS.length), s: rng.chance(0.2) ? 1 : 0 });
        }
        return { op, list };
      }
      case 'use':
        return { op, k: rng.int(KINDS.length) };
      case 'again':
      case 'drop':
        return { op, n: rng.int(16) };
    }
    return { op };
  }

  exec(op) {
    switch (op.op) {
      case 'update':
        for (const u of op.list) this.update(u);
        break;
      case 'use':
        this.use(op.k);
        break;
      case 'again':
        // To remove it once more makes no difference.
        if (this.gone.length > 0) this.gone[op.n % this.gone.length]();
        break;
      case 'step':
        this.step();
        break;
      case 'drop': {
        if (this.offs.length === 0) break;
        const [{ mw, off }] = this.offs.splice(op.n % this.offs.length, 1);
        off();
        this.regs = this.regs.filter((m) => m !== mw);
        this.gone.push(off);
        break;
      }
    }
  }

  root(n) {
    let root = this.roots[n];
    if (root === undefined || root.broken) {
      const { core } = this.sim.lib;
      const el = this.sim.document.createElement('main');
      this.sim.document.body.appendChild(el);
      root = { el, root: new core.DOMRoot(el, this.runtime), broken: false, text: null, n: 0 };
      this.roots[n] = root;
    }
    return root;
  }

  update({ r, m, p, s }) {
    const root = this.root(r);
    let mode = m;
    // Nothing follows what may break a commit under the same root.
    if (mode === 'effect' || mode === 'cleanup') root.broken = true;
    if (mode === 'cleanup') {
      if (root.text === null) mode = 'effect';
      else {
        mode = 'ok';
        root.cleanup = true;
      }
    }
    const text = 't' + this.handles.length;
    const handle = root.root.render(this.Comp({ mode, text }), s ? { flushSync: true } : { priority: PRIOS[p] });
    const h = { id: handle.id, root, mode, text, state: 'pending' };
    this.handles.push(h);
    if (root.cleanup) this.armCleanup = true;
    handle.finished.then(
      () => {
        h.state = 'done';
        const u = this.updates.get(h.id);
        if ((u !== undefined || this.cfg.keep) && !u?.committed) this.sim.fail('mw', `update ${h.id} was reported finished without its commit being called through the middleware`);
        root.text = text;
      },
      (error) => {
        h.state = 'failed';
        let e = error;
        while (e && !(e instanceof Boom) && e.cause) e = e.cause;
        if (!(e instanceof Boom)) this.sim.fail('hosterror', `update ${h.id} failed with ${error?.stack ?? error}`);
        this.sim.probe('mw-failed-' + (this.updates.get(h.id)?.committed ? 'commit' : 'render'));
      },
    );
  }

  /** Waits until the most urgent update is done. */
  step() {
    const { core } = this.sim.lib;
    const waiting = this.handles.filter((h) => h.state === 'pending');
    const step = { done: false };
    this.steps.push(step);
    core.step(this.runtime).then(
      (any) => {
        step.done = true;
        if (any !== waiting.length > 0) this.sim.fail('step', `step() answered ${any} although ${waiting.length} updates were waiting`);
        if (any && !waiting.some((h) => h.state === 'done')) this.sim.fail('step', 'step() is over before any of the updates that were waiting');
      },
      (error) => {
        step.done = true;
        if (!waiting.some((h) => h.state === 'failed')) this.sim.fail('step', `step() failed with ${error?.stack ?? error} although none of the updates that were waiting has`);
      },
    );
  }

  /** A middleware that checks the one inside it. */
  use(k) {
    const S = this;
    const { lib } = this.sim;
    const id = this.mws.length;
    const kind = KINDS[k % KINDS.length];
    let depth = 0;
    const reports = [];
    const marks = new Map();
    let phase = '';
    const spans = { Update: 'before render-after commit', Render: 'before render-after render', Commit: 'before commit-after commit' };
    const inner =
      kind === 'log'
        ? new lib.logger.UpdateLogger({
            groupCollapsed: (first) => {
              depth++;
              reports.push(String(first));
            },
            groupEnd: () => depth--,
            log: () => {},
          })
        : kind === 'prof'
          ? new lib.profiler.UpdateProfiler({
              mark: (name) => marks.set(name, phase),
              measure: (name, from, to) => {
                if (!marks.has(from) || !marks.has(to)) throw new SyntaxError('no such mark');
                const span = marks.get(from) + '-' + marks.get(to);
                const want = spans[name.split(' ')[0]];
                if (span !== want) S.sim.fail('mw', `the profiler measured ${name} from ${span} instead of ${want}`);
                reports.push(name);
              },
            })
          : { handle: (update, render) => render(update) };
    const count = (update) =>
      kind === 'log' ? reports.filter((r) => new RegExp(`#${update.id}(?![0-9])`).test(r)).length : reports.filter((r) => r.startsWith('Update')).length;
    const expect = (update, before, lo, hi, what) => {
      const n = count(update) - before;
      if (kind !== 'obs' && (n < lo || n > hi)) S.sim.fail('mw', `the ${kind === 'log' ? 'logger' : 'profiler'} reported update ${update.id} ${n} times (${what})`);
      const last = reports.at(-1);
      if (kind === 'log' && what !== 'commit failed' && last !== undefined && last.includes('FAILED') !== (what === 'failed')) S.sim.fail('mw', `the logger reported update ${update.id}, ${what}, with ${last}`);
      if (depth !== 0) S.sim.fail('mw', 'the logger left a group open');
      S.sim.probe(`mw-${kind}-${what}`);
    };
    const mw = {
      id,
      handle(update, render) {
        const u = S.enter(update, mw);
        let thrown = null;
        let rendered = 0;
        let before = count(update);
        let commit;
        phase = 'before render';
        try {
          commit = inner.handle(update, (next) => {
            rendered++;
            if (next !== update) S.sim.fail('mw', 'another update was passed on');
            try {
              const commitNext = render(next);
              phase = 'after render';
              return () => {
                commitNext();
                phase = 'after commit';
              };
            } catch (error) {
              thrown = { error };
              throw error;
            }
          });
        } catch (error) {
          if (thrown === null || thrown.error !== error) throw error;
          if (kind === 'log') expect(update, before, 1, 1, 'failed');
          else expect(update, before, 0, 0, 'failed');
          throw error;
        } finally {
          S.exit(u, mw);
        }
        if (rendered !== 1) S.sim.fail('mw', `render was called ${rendered} times`);
        let n = 0;
        return () => {
          if (++n > 1) S.sim.fail('mw', `commit of update ${update.id} called ${n} times`);
          u.committed = true;
          before = count(update);
          phase = 'before commit';
          let failed = true;
          try {
            commit();
            failed = false;
          } finally {
            // The profiler measures whole updates only.
            expect(update, before, kind === 'log' || !failed ? 1 : 0, 1, failed ? 'commit failed' : 'committed');
          }
        };
      },
    };
    this.mws.push(mw);
    this.register(mw);
  }

  register(mw) {
    const off = this.runtime.use(mw);
    this.regs.push(mw);
    this.offs.push({ mw, off });
  }

  enter(update, mw) {
    let u = this.updates.get(update.id);
    if (u === undefined) this.updates.set(update.id, (u = { seen: [], open: [], committed: false }));
    u.seen.push(mw);
    u.open.push(mw);
    if (this.regs[u.seen.length - 1] !== mw) this.sim.fail('mw', `update ${update.id} went through middlewares ${u.seen.map((m) => m.id)}, which is not how they are registered`);
    return u;
  }

  exit(u, mw) {
    if (u.open.pop() !== mw) this.sim.fail('mw', 'middlewares do not nest');
    if (u.open.length === 0) {
      if (this.regs.length !== u.seen.length) this.sim.fail('mw', `only middlewares ${u.seen.map((m) => m.id)} ran`);
    }
  }

  check() {
    this.stateDigests.add(`${this.regs.map((m) => m.id % 3)}|${this.handles.filter((h) => h.state === 'pending').length}`);
  }

  onIdle() {
    if (this.steps.some((s) => !s.done)) this.sim.fail('step', 'step() never ended');
    for (const h of this.handles) {
      if (h.state === 'pending') this.sim.fail('mw', `update ${h.id} never settled`);
    }
    for (const root of this.roots) {
      if (root === undefined || root.broken || root.text === null) continue;
      const texts = this.handles.filter((h) => h.root === root && (h.state === 'done' || this.updates.get(h.id)?.committed || !this.cfg.keep)).map((h) => h.text);
      if (!texts.includes(root.el.textContent)) this.sim.fail('mw', `${JSON.stringify(root.el.textContent)} is shown, which was not rendered`);
    }
    return false;
  }

  onHostError(error) {
    this.sim.fail('hosterror', `error reached the host: ${error?.stack ?? error}`);
  }
}
