// Setup: the bundle builds and a run is repeatable. Writes nothing.
import { bundle } from './build.mjs';
import { initEnv } from './env.mjs';
import { Sim } from './engine.mjs';
import { load, presetCfg } from './presets.mjs';

initEnv(await bundle());
for (let seed = 1; seed <= 3; seed++) {
  const { scenario, cfg } = presetCfg('base', seed);
  const Scenario = await load(scenario);
  const a = await new Sim({ scenario: Scenario, cfg, seed }).run();
  const b = await new Sim({ scenario: Scenario, cfg, seed }).run();
  const c = await new Sim({ scenario: Scenario, cfg, seed, script: a.script }).run();
  if (a.digest !== b.digest || a.digest !== c.digest) {
    console.error(`run ${seed} is not repeatable: ${a.digest} ${b.digest} ${c.digest}`);
    process.exit(1);
  }
}
console.log('ok');
