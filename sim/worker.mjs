// Runs chunks of seeds for one check and reports totals; stops at a violation.
import { parentPort, workerData } from 'node:worker_threads';
import { initEnv } from './env.mjs';
import { presetCfg } from './presets.mjs';
import { CHECKS, GROUPS } from './checks.mjs';
import { confirm, evaluate } from './runcheck.mjs';
import { minimise } from './minimise.mjs';
import { hash32 } from './rng.mjs';
import { Sim } from './engine.mjs';
import { load } from './presets.mjs';
import { KNOWN } from './scenarios/known.mjs';

const { texts, property, beat, slot } = workerData;
const def = (CHECKS[property] ?? GROUPS[property]);
const beats = new Int32Array(beat);
initEnv(texts);

const tick = () => Atomics.add(beats, slot * 2, 1);

function add(to, from) {
  for (const k in from) to[k] = (to[k] ?? 0) + from[k];
}

export function caseOf(mixIndex, seed) {
  const mix = def.mixes[mixIndex];
  const { scenario, cfg } = presetCfg(mix.p, seed);
  Object.assign(cfg, mix.o);
  return { scenario, cfg, preset: mix.p };
}

parentPort.on('message', async (job) => {
  if (job.type === 'run') {
    const out = {
      type: 'chunk', runs: 0, steps: 0, simMs: 0, ops: 0, faults: {}, probes: {}, host: {}, orders: [], states: [], nontrivial: 0,
      perMix: {}, unfinished: 0, dismissed: 0, violation: null, sample: null, digests: [], harness: 0, harnessMessage: null,
    };
    for (const { mix, seed } of job.cases) {
      tick();
      const { scenario, cfg, preset } = caseOf(mix, seed);
      const { result, violation } = await evaluate(def, scenario, cfg, seed);
      out.runs++;
      out.steps += result.steps;
      out.simMs += result.simMs;
      out.ops += result.script.filter((x) => typeof x === 'object').length;
      add(out.faults, result.faults);
      add(out.probes, result.probes);
      add(out.host, result.hostStats);
      out.perMix[preset] = (out.perMix[preset] ?? 0) + 1;
      const order = hash32(result.order + preset);
      out.orders.push(order);
      if (result.nontrivial ?? result.steps > 8) out.nontrivial++;
      for (const s of result.states ?? []) out.states.push(s);
      if (job.digests) out.digests.push([mix, seed, result.digest]);
      if (out.sample === null && result.script.length < 16) {
        out.sample = { preset, seed, script: result.script, digest: result.digest };
      }
      const harness = result.violations.find((v) => v.cls === 'harness');
      if (harness) {
        out.harness++;
        out.harnessMessage = `${preset} ${seed}: ${harness.message}`;
      }
      if (violation !== null) {
        if (await confirm(def, scenario, cfg, seed, result.script, violation, 3)) {
          out.violation = { mix, preset, scenario, cfg, seed, script: result.script, violation };
          break;
        }
        out.dismissed++;
      }
    }
    parentPort.postMessage(out);
  } else if (job.type === 'known') {
    const still = {};
    for (const id of job.ids) {
      const scenario = await load('known');
      if (!KNOWN[id]) continue;
      const r = await new Sim({ scenario, cfg: { known: id, ops: 0 }, seed: 1 }).run();
      const v = r.violations.find((v) => v.cls === 'known');
      if (v) still[id] = v.message;
    }
    parentPort.postMessage({ type: 'known', still });
  } else if (job.type === 'minimise') {
    const { scenario, cfg, seed, script, violation } = job.found;
    const { cls } = violation;
    const test = async (c, s) => {
      tick();
      const { result, violation: v } = await evaluate(def, scenario, c, seed, { script: s, cls });
      if (v === null) return null;
      if (!(await confirm(def, scenario, c, seed, result.script, v, 2))) return null;
      return result.script;
    };
    const min = await minimise({ cfg, script, test, keys: def.contrast === 'worlds' || def.twin ? ['prod', 'hidden', 'idle', 'postTask'] : undefined }, job.budget);
    const { result, violation: v } = await evaluate(def, scenario, min.cfg, seed, { script: min.script, cls, trace: true });
    const ok = v !== null && (await confirm(def, scenario, min.cfg, seed, min.script, v, 40));
    parentPort.postMessage({ type: 'minimised', ok, cfg: min.cfg, script: min.script, tries: min.tries, violation: v, digest: result.digest, trace: result.trace });
  }
});
parentPort.postMessage({ type: 'ready' });
