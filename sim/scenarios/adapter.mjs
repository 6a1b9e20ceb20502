// The DOM host adapter on its own: callbacks and commits handed to it while the host
// offers few or many facilities, is hidden or visible, stalls or jumps ahead.
import { Digest } from '../rng.mjs';

const PRIOS = ['user-blocking', 'user-visible', 'background', null, 'none'];
const CONTINUOUS = [
  'drag', 'dragenter', 'dragleave', 'dragover', 'mouseenter', 'mouseleave', 'mousemove', 'mouseout', 'mouseover', 'pointerenter', 'pointerleave',
  'pointermove', 'pointerout', 'pointerover', 'scroll', 'touchmove', 'wheel',
];
const DISCRETE = ['click', 'keydown', 'input', 'change', 'submit', 'pointerdown', 'touchstart', 'focusin', 'drop', 'popstate'];

class Boom extends Error {}

export class Adapter {
  constructor(sim) {
    this.sim = sim;
    this.cfg = sim.cfg;
    this.reqs = [];
    this.stateDigests = new Set();
    this.task = 0; // serial of the running host task or operation
    this.running = null;
  }

  setup() {
    const { core } = this.sim.lib;
    this.adapters = Array.from({ length: this.cfg.adapters ?? 1 }, () => new core.DOMAdapter(this.sim.document));
    const host = this.sim.host;
    const run = host.run.bind(host);
    host.run = async (cand) => {
      this.task++;
      this.running = cand;
      await run(cand);
      this.running = null;
      if (cand.kind === 'frame') this.afterFrame();
    };
    this.listener = (event) => {
      const fn = this.eventFn;
      this.eventFn = null;
      fn?.(event);
    };
    for (const t of [...CONTINUOUS, ...DISCRETE]) this.sim.document.addEventListener(t, this.listener, true);
  }

  dispose() {
    for (const t of [...CONTINUOUS, ...DISCRETE]) this.sim.document.removeEventListener(t, this.listener, true);
  }

  onHostError(error) {
    this.sim.fail('hosterror', `error reached the host: ${error?.message ?? error}`);
  }

  gen(rng) {
    const w = { cb: 6, commit: 3, show: 0.7, hide: 0.7, jump: 0.7, resolve: 1.5, prio: 1, burst: 1.5 };
    const op = rng.weighted(w);
    switch (op) {
      case 'cb':
        return { op, a: rng.int(9), p: rng.int(PRIOS.length), b: this.genBehaviour(rng, 2) };
      case 'commit':
        return { op, a: rng.int(9), b: this.genBehaviour(rng, 2) };
      case 'burst':
        return { op, list: Array.from({ length: 2 + rng.int(4) }, () => ({ a: rng.int(9), p: rng.int(PRIOS.length + 2), b: this.genBehaviour(rng, 1) })) };
      case 'jump':
        return { op, n: rng.pick([1, 20, 90, 100, 101, 500, 5000]) };
      case 'resolve':
        return { op, n: rng.int(9), ok: rng.chance(0.6) };
      case 'prio':
        return { op, t: rng.chance(0.2) ? null : rng.pick([...CONTINUOUS, ...DISCRETE]), ready: rng.pick(['complete', 'complete', 'loading', 'interactive']) };
      default:
        return { op };
    }
  }

  /** What a callback does: how it ends, and what it asks for meanwhile. */
  genBehaviour(rng, depth) {
    const b = { e: rng.weighted({ ok: 5, throw: this.cfg.faults === 0 ? 0 : 1.2, async: 1.2, asyncThrow: this.cfg.faults === 0 ? 0 : 0.6 }) };
    if (depth > 0 && rng.chance(0.3)) {
      b.more = Array.from({ length: 1 + rng.int(2) }, () => ({ a: rng.int(9), p: rng.int(PRIOS.length + 2), b: this.genBehaviour(rng, depth - 1) }));
    }
    return b;
  }

  exec(op) {
    this.task++;
    const { sim } = this;
    switch (op.op) {
      case 'cb':
      case 'commit':
        this.request(op, op.op === 'commit');
        break;
      case 'burst':
        for (const r of op.list) this.request(r, r.p >= PRIOS.length);
        break;
      case 'hide':
        sim.fault('hidden document');
        sim.host.cfg = { ...sim.host.cfg, hidden: 1 };
        break;
      case 'show':
        sim.host.cfg = { ...sim.host.cfg, hidden: 0 };
        break;
      case 'jump':
        sim.fault('clock jump');
        sim.host.now += op.n;
        break;
      case 'resolve': {
        const waiting = this.reqs.filter((r) => r.settle);
        if (waiting.length > 0) {
          const r = waiting[op.n % waiting.length];
          const settle = r.settle;
          r.settle = null;
          settle(r.b.e === 'async');
        }
        break;
      }
      case 'prio':
        this.priority(op);
        break;
    }
  }

  /** The priority the adapter reports within an event and outside of any. */
  priority(op) {
    const { sim } = this;
    const adapter = this.adapters[0];
    const before = sim.env.state.readyState;
    sim.env.state.readyState = op.ready;
    try {
      let got;
      if (op.t === null) {
        got = adapter.getTaskPriority();
      } else {
        this.eventFn = () => {
          got = adapter.getTaskPriority();
        };
        sim.document.dispatchEvent(new sim.env.window.Event(op.t, { bubbles: true }));
        this.eventFn = null;
      }
      const want =
        op.t !== null ? (CONTINUOUS.includes(op.t) ? 'user-visible' : 'user-blocking') : op.ready !== 'complete' ? 'user-blocking' : 'background';
      if (got !== want) sim.fail('priority', `priority ${got} instead of ${want} (event ${op.t}, document ${op.ready})`);
    } finally {
      sim.env.state.readyState = before;
    }
  }

  request(spec, commit) {
    const { sim } = this;
    const adapter = this.adapters[spec.a % this.adapters.length];
    const p = PRIOS[spec.p % PRIOS.length];
    const r = {
      n: this.reqs.length, commit, prio: commit ? null : p, b: spec.b, at: sim.host.now, task: this.task, ran: 0, state: 'waiting', outcome: null,
      hiddenAtRequest: sim.host.cfg.hidden, frames: 0,
    };
    this.reqs.push(r);
    sim.note(`request ${r.n} ${commit ? 'commit' : p}`);
    const callback = () => this.onRun(r);
    let promise;
    try {
      if (commit) promise = adapter.requestCommit(callback);
      else if (p === 'none') promise = adapter.requestCallback(callback);
      else promise = adapter.requestCallback(callback, p === null ? {} : { priority: p });
    } catch (error) {
      sim.fail('request', `request ${r.n} threw ${error?.message}`);
      return;
    }
    if (r.ran > 0) sim.fail('sync', `callback ${r.n} ran within the request`);
    if (typeof promise?.then !== 'function') {
      sim.fail('request', `request ${r.n} did not return a promise`);
      return;
    }
    promise.then(
      (value) => this.onOutcome(r, true, value),
      (error) => this.onOutcome(r, false, error),
    );
  }

  onRun(r) {
    const { sim } = this;
    r.ran++;
    sim.note(`callback ${r.n} runs`);
    if (r.ran > 1) sim.fail('twice', `callback ${r.n} ran ${r.ran} times`);
    if (r.task === this.task) sim.fail('sync', `callback ${r.n} ran within the task that requested it`);
    r.state = 'ran';
    this.checkFacility(r);
    for (const m of r.b.more ?? []) this.request(m, m.p >= PRIOS.length);
    switch (r.b.e) {
      case 'ok':
        return;
      case 'throw':
        sim.fault('callback throws');
        r.error = new Boom('callback ' + r.n);
        throw r.error;
      default:
        if (r.b.e === 'asyncThrow') {
          sim.fault('callback rejects');
          r.error = new Boom('callback ' + r.n);
        }
        r.state = 'async';
        return new Promise((resolve, reject) => {
          r.settle = (ok) => {
            r.state = 'ran';
            if (ok) resolve();
            else reject(r.error);
          };
        });
    }
  }

  /** By which of the host's facilities was it run? */
  checkFacility(r) {
    const { sim, cfg } = this;
    const cand = this.running;
    if (cand === null) {
      sim.fail('sync', `callback ${r.n} ran outside of any host task`);
      return;
    }
    const { kind, task } = cand;
    if (r.commit) {
      if (kind !== 'frame' && kind !== 'timer') sim.fail('facility', `commit ${r.n} ran in a ${kind} task`);
      else if (kind === 'timer' && task.due - r.at > 500) sim.fail('late', `commit ${r.n} was only due ${task.due - r.at} ms after the request`);
      else sim.probe(kind === 'frame' ? 'commit with a frame' : 'commit by timer');
      return;
    }
    const prio = r.prio === 'none' || r.prio === null ? 'user-visible' : r.prio;
    sim.probe(`${prio} by ${kind}`);
    const bad = (what) => sim.fail('facility', `${prio} callback ${r.n} ran ${what}`);
    if (cfg.postTask) {
      if (kind !== 'post') bad(`in a ${kind} task although the host schedules tasks`);
      else if (task.priority !== prio) bad(`with priority ${task.priority}`);
      else if (task.due > r.at) bad('delayed');
      return;
    }
    if (kind === 'frame') bad('in a frame');
    else if (kind === 'timer' && task.due - r.at > 50) bad(`only due ${task.due - r.at} ms after the request`);
    else if (kind === 'timer' && prio === 'user-blocking') bad('in a timer');
    else if (kind === 'idle' && prio !== 'background') bad('in an idle period');
    else if (kind !== 'idle' && prio === 'background' && cfg.idle) bad(`in a ${kind} task although the host has idle periods`);
    else if (kind === 'message' && prio === 'background') bad('like an urgent one');
  }

  onOutcome(r, ok, value) {
    const { sim } = this;
    sim.note(`outcome ${r.n} ${ok}`);
    if (r.ran !== 1) sim.fail('outcome', `request ${r.n} settled after its callback ran ${r.ran} times`);
    if (r.state === 'async') sim.fail('outcome', `request ${r.n} settled before the promise of its callback`);
    if (ok && r.error) sim.fail('outcome', `failure of callback ${r.n} was not reported`);
    if (!ok && value !== r.error) sim.fail('outcome', `request ${r.n} failed with ${value?.message ?? value}`);
    r.outcome = ok;
  }

  /** All commits requested before a frame have run once its callbacks are over. */
  afterFrame() {
    for (const r of this.reqs) {
      if (r.commit && r.ran === 0 && r.task !== this.task) {
        this.sim.fail('frame', `commit ${r.n} did not run with the frame after its request`);
      }
    }
  }

  check() {
    const d = new Digest();
    for (const r of this.reqs) if (r.outcome === null) d.add(`${r.commit ? 'c' : r.prio}${r.state}`);
    this.stateDigests.add(d.toString());
    for (const r of this.reqs) {
      if (r.ran === 1 && r.outcome === null && r.state === 'ran') {
        this.sim.fail('outcome', `request ${r.n} did not settle although its callback has run`);
      }
    }
  }

  onIdle(phase) {
    for (const r of this.reqs) {
      if (r.ran === 0) this.sim.fail('lost', `${r.commit ? 'commit' : 'callback'} ${r.n} never ran`);
    }
    if (phase < 4) {
      let more = false;
      for (const r of this.reqs) {
        if (!r.settle) continue;
        const settle = r.settle;
        r.settle = null;
        settle(r.b.e === 'async');
        more = true;
      }
      return more;
    }
    return false;
  }
}
export default Adapter;
