// One evaluation: a simulated run, plus what a check needs to decide whether what it
// showed contradicts the property.
import { Sim } from './engine.mjs';
import { load } from './presets.mjs';
import { stripFaults, onlyWorld, stripPortals } from './scenarios/tree.mjs';

/** All ways of leaving out what the violation must need, per kind of contrast. */
const CONTRASTS = {
  faults: (script) => [stripFaults(script)],
  worlds: (script, cfg) => Array.from({ length: cfg.roots }, (_, w) => onlyWorld(script, cfg, w)),
  portals: (script) => [stripPortals(script)],
};

export async function evaluate(def, scenario, cfg, seed, { script, trace, cls } = {}) {
  const Scenario = await load(scenario);
  const classes = cls ? [cls] : def.classes;
  const result = await new Sim({ scenario: Scenario, cfg, seed, script, trace, classes }).run();
  let violation = result.violations.find((v) => classes.includes(v.cls)) ?? null;
  if (violation === null && def.twin === 'mw' && cfg.mw && classes.includes('mw-differs')) {
    const twin = await new Sim({ scenario: Scenario, cfg: { ...cfg, noMw: 1 }, seed, script: result.script, classes: ['-'] }).run();
    if (twin.sem !== result.sem) {
      violation = { cls: 'mw-differs', step: result.steps, message: 'without the middleware, the same schedule of the same operations has another history' };
    }
  }
  return { result, violation };
}

/** Is this run a violation of the property itself? */
export async function confirm(def, scenario, cfg, seed, script, violation, fuzz) {
  if (!def.contrast || (def.contrastClasses && !def.contrastClasses.includes(violation.cls))) return true;
  const Scenario = await load(scenario);
  const cls = violation.cls;
  for (const variant of CONTRASTS[def.contrast](script, cfg)) {
    if (def.contrast === 'faults' && JSON.stringify(variant) === JSON.stringify(script)) return false;
    for (let f = -1; f < fuzz; f++) {
      const r = await new Sim({ scenario: Scenario, cfg, seed, script: variant, classes: [cls], fuzz: f < 0 ? undefined : f }).run();
      if (r.violations.some((v) => v.cls === cls)) return false;
    }
  }
  return true;
}
