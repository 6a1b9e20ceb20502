// One simulated run: a pure function of (scenario, cfg, ops or op stream, decisions).
import { Host, drain } from './host.mjs';
import { Digest, Rng } from './rng.mjs';
import { getEnv, instantiate } from './env.mjs';

export class Sim {
  constructor({ scenario, cfg, seed, script, trace, classes, fuzz }) {
    this.scenarioDef = scenario;
    this.cfg = cfg;
    this.seed = seed;
    // What happened, in order: an operation (object) or which of the pending host
    // tasks ran next (index in natural order). Recorded, or followed when given.
    // With `fuzz`, only the operations of the script are followed, in order, under a
    // schedule of their own.
    this.given = fuzz === undefined ? script ?? null : null;
    this.givenOps = fuzz === undefined ? null : script.filter((x) => typeof x === 'object');
    this.pos = 0;
    this.script = [];
    this.opCountDone = 0;
    this.opRng = new Rng(seed, 'ops');
    this.rng = new Rng(seed, 'schedule' + (fuzz ?? ''));
    this.digest = new Digest();
    this.order = new Digest(); // only the schedule: which kind of thing ran when
    this.trace = trace ? [] : null;
    this.classes = classes ?? null;
    this.violations = [];
    this.hostErrors = [];
    this.probes = Object.create(null);
    this.faults = Object.create(null);
    this.step = 0;
    this.opsLeft = script ? script.filter((x) => typeof x === 'object').length : cfg.ops;
    this.host = new Host(this);
    this.env = getEnv();
    this.document = this.env.document;
    this.inOp = false;
    this.phase = 'run';
    this.idlePhase = 0;
    this.sem = new Digest(); // semantic history: DOM states, effects, outcomes
  }

  note(str) {
    this.digest.add(str);
    if (this.trace) this.trace.push(`[${this.step} t=${this.host.now}] ${str}`);
  }

  probe(name, n = 1) {
    this.probes[name] = (this.probes[name] ?? 0) + n;
  }

  fault(name) {
    this.faults[name] = (this.faults[name] ?? 0) + 1;
  }

  fail(cls, message) {
    if (this.violations.length >= 20) return;
    this.note('VIOLATION ' + cls + ' ' + message);
    this.violations.push({ cls, message, step: this.step });
  }

  /** An exception that reached the host (uncaught in a task or event listener). */
  hostError(error) {
    this.hostErrors.push(error);
    this.note('hostError ' + String(error?.message ?? error).slice(0, 120));
    this.scenario?.onHostError?.(error);
  }

  get stop() {
    if (this.violations.length === 0) return false;
    if (!this.classes) return true;
    return this.violations.some((v) => this.classes.includes(v.cls));
  }

  async run() {
    const { lib, win } = instantiate(this, this.host.makeGlobals(), new Rng(this.seed, 'host'));
    this.lib = lib;
    this.win = win;
    this.scenario = new this.scenarioDef(this);
    const maxSteps = this.cfg.maxSteps ?? 6000;
    try {
      this.scenario.setup();
      await drain();
      this.after();
      while (this.step < maxSteps && !this.stop) {
        this.step++;
        const cands = this.host.candidates();
        const canOp = this.opsLeft > 0;
        if (cands.length === 0 && !canOp) {
          // Nothing left to run and no operation left: the scenario may start its next
          // phase (recovery, final checks, tear-down), which is driven to idle as well.
          const phase = this.idlePhase++;
          this.phase = 'idle' + phase;
          this.note('phase ' + phase);
          const more = this.scenario.onIdle(phase);
          await drain();
          this.after();
          if (more) continue;
          break;
        }
        const choice = this.choose(cands, canOp);
        if (choice.cand !== undefined) {
          const { cand } = choice;
          this.note('run ' + cand.kind);
          this.order.add(cand.kind);
          await this.host.run(cand);
        } else {
          this.opsLeft--;
          const op = choice.op ?? (this.givenOps ? this.givenOps.shift() : this.scenario.gen(this.opRng));
          if (op) {
            this.opCountDone++;
            this.script.push(op);
            this.note('op ' + JSON.stringify(op));
            this.order.add('op:' + op.op);
            this.inOp = true;
            try {
              this.scenario.exec(op);
            } catch (error) {
              this.hostError(error);
            }
            this.inOp = false;
          }
        }
        await drain();
        this.after();
      }
      if (this.step >= maxSteps && !this.stop) {
        this.fail('livelock', `work still being requested after ${maxSteps} steps`);
      }
    } catch (error) {
      this.fail('harness', 'harness error: ' + (error?.stack ?? error));
    } finally {
      try {
        this.scenario.dispose?.();
      } catch {}
      this.document.body.replaceChildren();
      this.env.state.errorSink = null;
    }
    return this.result();
  }

  after() {
    this.scenario.check();
  }

  /** The next thing to happen. Past the end of a given script: the most natural one. */
  choose(cands, canOp) {
    if (this.given !== null) {
      while (this.pos < this.given.length) {
        const entry = this.given[this.pos++];
        if (typeof entry === 'object') return { op: entry };
        if (cands.length === 0) continue;
        return this.take(cands, entry < cands.length ? entry : 0);
      }
      return this.take(cands, 0);
    }
    const weights = cands.map((c) => c.w);
    if (canOp) weights.push(this.cfg.opWeight ?? 3);
    let d = 0;
    if (weights.length > 1) {
      let total = 0;
      for (const w of weights) total += w;
      let x = this.rng.next() * total;
      for (let i = 0; i < weights.length; i++) {
        x -= weights[i];
        if (x < 0) {
          d = i;
          break;
        }
      }
    }
    if (d < cands.length) return this.take(cands, d);
    return {};
  }

  take(cands, d) {
    if (d > 0) this.probe('reordered');
    this.script.push(d);
    return { cand: cands[d] };
  }

  result() {
    return {
      seed: this.seed,
      cfg: this.cfg,
      script: this.script,
      violations: this.violations,
      digest: this.digest.toString(),
      sem: this.sem.toString(),
      order: this.order.toString(),
      steps: this.step,
      simMs: this.host.now - 1000,
      hostStats: this.host.stats,
      faults: this.faults,
      probes: this.probes,
      states: this.scenario?.stateDigests,
      trace: this.trace,
    };
  }
}
