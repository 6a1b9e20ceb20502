// Development: node min1.mjs <preset> <seed> [cfgjson]: minimise one failing seed and print its trace.
import { bundle } from './build.mjs';
import { initEnv } from './env.mjs';
import { Sim } from './engine.mjs';
import { load, presetCfg } from './presets.mjs';
import { minimise } from './minimise.mjs';
const [preset, seed, extra = '{}'] = process.argv.slice(2);
initEnv(await bundle());
const { scenario, cfg } = presetCfg(preset, +seed);
Object.assign(cfg, JSON.parse(extra));
const Scenario = await load(scenario);
const r = await new Sim({ scenario: Scenario, cfg, seed: +seed }).run();
if (!r.violations.length) { console.log('no violation'); process.exit(); }
const cls = process.env.CLS || r.violations[0].cls;
const m = await minimise({ cfg, script: r.script, test: async (c, s) => { const r = await new Sim({ scenario: Scenario, cfg: c, seed: +seed, script: s, classes: [cls] }).run(); return r.violations.some((v) => v.cls === cls) ? r.script : null; } }, +(process.env.MS ?? 15000));
const f = await new Sim({ scenario: Scenario, cfg: m.cfg, seed: +seed, script: m.script, trace: true, classes: [cls] }).run();
console.log(`${preset} ${seed} ${cls} tries ${m.tries}`);
console.log(f.trace.join('\n'));
