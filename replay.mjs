// node replay.mjs <file>: re-executes a replay file against /repo's working tree.
// Exit 1 if the violation shows again, 0 if not.
import { readFileSync } from 'node:fs';
import { bundle } from './sim/build.mjs';
import { initEnv } from './sim/env.mjs';
import { CHECKS } from './sim/checks.mjs';
import { presetCfg } from './sim/presets.mjs';
import { evaluate } from './sim/runcheck.mjs';

const rep = JSON.parse(readFileSync(process.argv[2], 'utf8'));
const def = CHECKS[rep.property];
initEnv(await bundle());
let { scenario, cfg } = rep;
if (cfg === undefined) {
  const mix = def.mixes[rep.mix];
  ({ scenario, cfg } = presetCfg(mix.p, rep.seed));
  Object.assign(cfg, mix.o);
}
if (rep.violation.cls === 'hang') console.log('this run is expected never to end; interrupt it after a while');
const { result, violation } = await evaluate(def, scenario, cfg, rep.seed, { script: rep.script ?? undefined, cls: rep.violation.cls === 'hang' ? undefined : rep.violation.cls, trace: true });
if (!process.env.VERIF_QUIET) console.log(result.trace.join('\n'));
if (violation === null) {
  console.log('no violation');
  process.exit(0);
}
console.log(`${violation.cls} at step ${violation.step}: ${violation.message}`);
if (rep.digest && rep.digest !== result.digest) console.log(`(the code has changed since: digest ${result.digest}, recorded ${rep.digest})`);
process.exit(1);
