// Development runner: node dev.mjs <scenario> <n> [seed0] [json cfg]
import { bundle } from './build.mjs';
import { initEnv } from './env.mjs';
import { Sim } from './engine.mjs';
import { load, presetCfg } from './presets.mjs';
const [preset, n = '50', seed0 = '1', extra = '{}'] = process.argv.slice(2);
initEnv(await bundle());
const t0 = performance.now();
let bad = 0;
const classes = {};
const probes = {};
const faults = {};
let steps = 0;
for (let i = 0; i < +n; i++) {
  const seed = +seed0 + i;
  const { scenario, cfg } = presetCfg(preset, seed);
  Object.assign(cfg, JSON.parse(extra));
  const sim = new Sim({ scenario: await load(scenario), cfg, seed, trace: process.env.TRACE === '1' });
  const r = await sim.run();
  steps += r.steps;
  for (const k in r.probes) probes[k] = (probes[k] ?? 0) + r.probes[k];
  for (const k in r.faults) faults[k] = (faults[k] ?? 0) + r.faults[k];
  if (r.violations.length) {
    bad++;
    const v = r.violations[0];
    classes[v.cls] = (classes[v.cls] ?? 0) + 1;
    if (bad <= +(process.env.SHOW ?? 5)) {
      console.log(`seed ${seed}: ${r.violations.slice(0, 3).map((v) => v.cls + '@' + v.step + ' ' + v.message.slice(0, 300)).join('\n   ')}`);
    }
    if (process.env.TRACE === '1') console.log(r.trace.join('\n'));
  }
}
const dt = (performance.now() - t0) / 1000;
console.log(`${n} runs, ${bad} bad, ${(+n / dt).toFixed(1)} runs/s, ${(steps / +n).toFixed(0)} steps/run`);
console.log(classes);
if (process.env.PROBES) console.log(probes, faults);
