// node check.mjs <property>: decides one property by seeded simulation of the code in
// /repo's working tree. Exit 0: held on everything explored; 1: VIOLATION line.
import { Worker } from 'node:worker_threads';
import { execFileSync, spawnSync } from 'node:child_process';
import { mkdirSync, readFileSync, writeFileSync, existsSync } from 'node:fs';
import path from 'node:path';
import os from 'node:os';
import { fileURLToPath } from 'node:url';
import { bundle, REPO } from './sim/build.mjs';
import { CHECKS, GROUPS } from './sim/checks.mjs';
import { hash32 } from './sim/rng.mjs';

const HERE = path.dirname(fileURLToPath(import.meta.url));
const property = process.argv[2];
const def = (CHECKS[property] ?? GROUPS[property]);
if (!def) {
  console.error('no check for ' + property);
  process.exit(2);
}
const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const seed0 = Number.parseInt(process.env.VERIF_SEED ?? '1', 10) || 0;
const scale = Number(process.env.VERIF_SCALE ?? 1);
const runsWanted = Math.round((tier === 'thorough' ? 40 : 1) * def.runs * scale);
const wallCap = tier === 'thorough' ? 790_000 : 300_000;
const started = performance.now();
const workersN = Math.max(1, Math.min(8, os.availableParallelism?.() ?? 8));
const HANG_MS = Number(process.env.VERIF_HANG_MS ?? 25_000);

console.log(`property=${property} tier=${tier} seed=${seed0} repo=${REPO}`);
let texts;
try {
  texts = await bundle();
} catch (error) {
  console.error('cannot build ' + REPO + ': ' + error.message);
  process.exit(2);
}
const codeHash = hash32(texts[0]).toString(16);

// ---- the cases: a fixed function of VERIF_SEED ---------------------------------------
const totalW = def.mixes.reduce((a, m) => a + m.w, 0);
function caseAt(i) {
  let x = (i * 0.6180339887498949 % 1) * totalW;
  let mix = 0;
  while (mix < def.mixes.length - 1 && x >= def.mixes[mix].w) x -= def.mixes[mix++].w;
  return { mix, seed: hash32(`${seed0}/${property}/${i}`) };
}

const beat = new SharedArrayBuffer(8 * 64);
const beats = new Int32Array(beat);
const total = {
  runs: 0, steps: 0, simMs: 0, ops: 0, faults: {}, probes: {}, host: {}, perMix: {}, nontrivial: 0, dismissed: 0, harness: 0, hangs: 0,
};
const orders = new Set();
const states = new Set();
const samples = [];
const digestOf = new Map();
let redone = 0;
let nondeterministic = 0;
let found = null;
let hang = null;
let harnessMessage = null;
let next = 0;
const redo = [];
let stopping = false;

function add(to, from) {
  for (const k in from) to[k] = (to[k] ?? 0) + from[k];
}
function spawn(slot) {
  return new Worker(new URL('./sim/worker.mjs', import.meta.url), {
    workerData: { texts, property, beat, slot },
    resourceLimits: { maxOldGenerationSizeMb: 1500 },
  });
}

const CHUNK = 40;
const search = () => new Promise((resolve) => {
  let alive = 0;
  const slots = [];
  const finish = (slot) => {
    alive--;
    slots[slot]?.worker.terminate();
    slots[slot] = null;
    if (alive === 0) {
      clearInterval(timer);
      resolve();
    }
  };
  const give = (slot) => {
    const s = slots[slot];
    if (!s) return;
    if (stopping || performance.now() - started > wallCap) return finish(slot);
    let cases;
    let digests = false;
    let check = false;
    if (redo.length > 0 && redo[0].slot !== slot && next >= runsWanted) {
      cases = redo.shift().cases;
      digests = true;
      check = true;
    } else if (next < runsWanted) {
      cases = [];
      for (let k = 0; k < CHUNK && next < runsWanted; k++) cases.push(caseAt(next++));
      // A sample of the runs is repeated later in another worker to check determinism.
      digests = cases.length > 0 && hash32('det' + next) % Math.max(1, Math.ceil(runsWanted / CHUNK / 8)) === 0;
      if (digests) redo.push({ slot, cases });
    } else if (redo.length > 0) {
      cases = redo.shift().cases;
      digests = true;
      check = true;
    } else return finish(slot);
    s.job = { cases, check };
    s.seen = -1;
    s.worker.postMessage({ type: 'run', cases, digests });
  };
  const onChunk = (slot, out) => {
    const s = slots[slot];
    if (s.job.check) {
      for (const [mix, seed, digest] of out.digests) {
        redone++;
        if (digestOf.get(mix + ':' + seed) !== digest && digestOf.has(mix + ':' + seed)) nondeterministic++;
      }
    } else {
      for (const k of ['runs', 'steps', 'simMs', 'ops', 'nontrivial', 'dismissed', 'harness']) total[k] += out[k];
      for (const k of ['faults', 'probes', 'host', 'perMix']) add(total[k], out[k]);
      for (const o of out.orders) orders.add(o);
      for (const x of out.states) states.add(x);
      for (const [mix, seed, digest] of out.digests) digestOf.set(mix + ':' + seed, digest);
      if (out.sample && samples.length < 3) samples.push(out.sample);
      harnessMessage ??= out.harnessMessage;
    }
    if (out.violation && !found) {
      found = out.violation;
      stopping = true;
    }
    give(slot);
  };
  const start = (slot) => {
    const worker = spawn(slot);
    slots[slot] = { worker, job: null, seen: -1, at: performance.now() };
    alive++;
    worker.on('message', (m) => {
      if (m.type === 'ready') give(slot);
      else if (m.type === 'chunk') onChunk(slot, m);
    });
    worker.on('error', (error) => {
      if (slots[slot]?.worker !== worker) return;
      harnessMessage ??= 'worker failed: ' + error;
      total.harness++;
      finish(slot);
      if (!stopping && total.harness < 5) start(slot);
    });
  };
  // Watchdog: a run that never ends (an endless loop inside the library).
  const timer = setInterval(() => {
    const now = performance.now();
    slots.forEach((s, slot) => {
      if (!s || !s.job) return;
      const b = beats[slot * 2];
      if (b !== s.seen) {
        s.seen = b;
        s.at = now;
      } else if (now - s.at > HANG_MS) {
        total.hangs++;
        hang ??= { cases: s.job.cases };
        finish(slot);
        stopping = true;
      }
    });
  }, 300);
  for (let slot = 0; slot < workersN; slot++) start(slot);
});

// ---- outcome --------------------------------------------------------------------------
mkdirSync(path.join(HERE, 'replays'), { recursive: true });
let violations = 0;
let line = null;
const known = [];

function replayPath(cls, seed) {
  return path.join(HERE, 'replays', `${property}-${cls}-${seed}.json`);
}
function runReplay(file, timeout) {
  return spawnSync(process.execPath, [path.join(HERE, 'replay.mjs'), file], { timeout, encoding: 'utf8', env: { ...process.env, VERIF_QUIET: '1' } });
}

async function knownStill(ids) {
  const worker = spawn(61);
  try {
    return await new Promise((resolve) => {
      const t = setTimeout(() => resolve({}), 20_000);
      worker.on('error', () => resolve({}));
      worker.on('message', (m) => {
        if (m.type === 'ready') worker.postMessage({ type: 'known', ids });
        else if (m.type === 'known') {
          clearTimeout(t);
          resolve(m.still);
        }
      });
    });
  } finally {
    worker.terminate();
  }
}

async function minimised(f) {
  const worker = spawn(60);
  try {
    return await new Promise((resolve, reject) => {
      const budget = tier === 'thorough' ? 90_000 : 40_000;
      const t = setTimeout(() => reject(new Error('minimisation took too long')), budget + 60_000);
      worker.on('error', reject);
      worker.on('message', (m) => {
        if (m.type === 'ready') worker.postMessage({ type: 'minimise', found: f, budget });
        else {
          clearTimeout(t);
          resolve(m);
        }
      });
    });
  } finally {
    worker.terminate();
  }
}

let m = null;
let late = 0;
for (;;) {
  await search();
  if (!found) break;
  if (process.env.VERIF_FAST) {
    console.log(`FOUND ${found.preset} ${found.seed} ${found.violation.cls} at step ${found.violation.step}: ${found.violation.message}`);
    process.exit(1);
  }
  m = null;
  try {
    m = await minimised(found);
  } catch (error) {
    console.error('minimisation: ' + error.message);
  }
  if (!m || m.ok) break;
  // The contrast run shows the same without what the property is about: go on.
  late++;
  console.log(`dismissed: ${found.violation.cls} ${found.violation.message} (seed ${found.seed}): not specific to the property`);
  total.dismissed++;
  found = null;
  if (late >= 3) break;
  stopping = false;
}

if (found) {
  const f = found;
  const file = replayPath(f.violation.cls, f.seed);
  const write = (x) =>
    writeFileSync(
      file,
      JSON.stringify(
        {
          property, scenario: f.scenario, preset: f.preset, seed: f.seed, cfg: x.cfg, script: x.script, violation: x.violation,
          digest: x.digest ?? null, code: codeHash, shrunk_from: f.script.length, tries: x.tries ?? 0, trace: x.trace ?? null,
        },
        null,
        1,
      ),
    );
  write(m ?? f);
  let r = runReplay(file, 120_000);
  if (r.status !== 1 && m) {
    // Not the same in a fresh process: fall back to the run as it was found.
    write(f);
    r = runReplay(file, 120_000);
  }
  if (r.status !== 1) {
    console.error(`a violation could not be reproduced in a fresh process (seed ${f.seed}): ${f.violation.message}\n${r.stdout}${r.stderr}`);
    process.exitCode = 2;
  } else {
    const v = (m ?? f).violation;
    console.log(`${v.cls} at step ${v.step}: ${v.message}`);
    if (m) console.log(`minimised from ${f.script.length} to ${m.script.length} steps in ${m.tries} runs; trace in the replay file`);
    violations = 1;
    line = `VIOLATION property=${property} replay=${file}`;
  }
} else if (hang) {
  // Which case is it? Run each of the chunk in a process of its own, bounded.
  let culprit = null;
  for (const c of hang.cases) {
    const file = replayPath('hang', c.seed);
    writeFileSync(file, JSON.stringify({ property, mix: c.mix, seed: c.seed, script: null, violation: { cls: 'hang', message: 'the run never ends' } }, null, 1));
    const r = runReplay(file, 20_000);
    if (r.error?.code === 'ETIMEDOUT' || r.signal) {
      culprit = file;
      break;
    }
    execFileSync('rm', ['-f', file]);
  }
  if (culprit === null) {
    console.error('a worker stopped responding, but no run hangs by itself (overloaded machine?)');
  } else if (def.hang) {
    console.log('hang: the library never returns to the host');
    violations = 1;
    line = `VIOLATION property=${property} replay=${culprit}`;
  } else {
    console.error(`a run never ends (${culprit}); that is decided by C02`);
  }
}

// ---- listed findings that are still there ------------------------------------------------
{
  const listed = existsSync(path.join(HERE, 'known-findings.txt')) ? readFileSync(path.join(HERE, 'known-findings.txt'), 'utf8') : '';
  const entries = [...listed.matchAll(/^known: property=(\S+) id=(\S+) (.*)$/gm)].filter((e) => e[1] === property);
  if (entries.length > 0) {
    const still = await knownStill(entries.map((e) => e[2]));
    for (const [, , id, text] of entries) if (still[id]) known.push(`KNOWN-FINDING: property=${property} ${id}: ${text} (${still[id]})`);
  }
}

const wall = (performance.now() - started) / 1000;
mkdirSync(path.join(HERE, 'evidence'), { recursive: true });
const perHour = (n) => Math.round((n / wall) * 3600);
writeFileSync(
  path.join(HERE, 'evidence', property + '.json'),
  JSON.stringify(
    {
      property,
      tier,
      seed: seed0,
      level: 'exploration',
      coverage: {
        evaluations: total.runs,
        distinct_nontrivial: orders.size,
        rule:
          def.rule ??
          'A case is one simulated run: configuration, operations, faults and schedule all derived from its seed. Distinct: a different sequence of operation kinds and host task kinds was executed (hash of that sequence).',
        samples,
        runs_per_hour: perHour(total.runs),
        seeds_per_hour: perHour(total.runs),
        simulated_seconds: Math.round(total.simMs / 1000),
        scheduler_steps: total.steps,
        operations: total.ops,
        distinct_states: states.size,
        distinct_states_rule: 'distinct contents of the simulated page (or model state) seen after a step',
        host_tasks_run: total.host,
        faults_injected: total.faults,
        probes: total.probes,
        runs_per_workload: total.perMix,
        runs_repeated_for_determinism: redone,
        runs_not_repeatable: nondeterministic,
        dismissed_by_contrast: total.dismissed,
        harness_errors: total.harness,
        hangs: total.hangs,
        workers: workersN,
        real_components: def.real ?? ['src/** of /repo (debug and production builds), bundled per check from the working tree'],
        stub_components: def.stub ?? [
          'DOM: jsdom (its parser, tree and event dispatch run for real)',
          'clock, timers, MessageChannel, requestAnimationFrame, requestIdleCallback, scheduler.postTask, Date, Math.random, performance: simulator',
          'moveBefore, setHTMLUnsafe: thin shims over jsdom',
        ],
        code: codeHash,
      },
      assumptions: def.assumptions ?? ['Runs are sampled, not enumerated.', 'jsdom behaves like a browser for the operations the library performs.'],
      wall_s: Math.round(wall * 10) / 10,
      violations,
    },
    null,
    1,
  ),
);
console.log(
  `${total.runs} runs (${orders.size} distinct schedules, ${states.size} states), ${Math.round(total.simMs / 1000)} simulated s, ${total.steps} steps, ` +
    `faults ${JSON.stringify(total.faults)}, ${wall.toFixed(1)} s`,
);
if (nondeterministic > 0) console.error(`${nondeterministic} of ${redone} repeated runs differed from their first execution`);
if (harnessMessage) console.error('harness: ' + harnessMessage);
for (const k of known) console.log(k);
if (line) {
  console.log(line);
  process.exit(1);
}
if (total.harness > total.runs * 0.2) {
  console.error('too many runs could not be evaluated');
  process.exit(2);
}
process.exit(process.exitCode ?? 0);
