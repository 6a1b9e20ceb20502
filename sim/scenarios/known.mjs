// Demonstrations of the findings listed as `known:` in known-findings.txt: each fails
// as long as the defect is there. The workloads keep clear of exactly these inputs.
const json = (v) => JSON.stringify(v);

export const KNOWN = {
  // A draft of a part stands for its place: once another object is assigned there, the
  // draft taken before shows (and unwraps to) the new one.
  'draft-elements'({ signal }) {
    const s = signal.Derivable.from({ list: [{ n: 1 }, { n: 2 }] });
    s.scope((draft) => draft.list.reverse());
    return json(s.value.list) === '[{"n":2},{"n":1}]' ? null : `reversed to ${json(s.value.list)}`;
  },
  // The handle of an array's length is not kept in step with elements written past its end.
  'array-growth'({ signal }) {
    const s = signal.Derivable.from([1]);
    s.get('length');
    s.get(1).value = 2;
    void s.value;
    return s.get('length').value === 2 ? null : `length is ${s.get('length').value}`;
  },
  // The dependencies of a getter are those of its first run.
  'getter-branches'({ signal }) {
    const s = signal.Derivable.from({
      nick: 'N',
      name: 'A',
      get label() {
        return this.nick || this.name;
      },
    });
    const label = s.get('label');
    void label.value;
    s.get('nick').value = '';
    void label.value;
    s.get('name').value = 'B';
    return label.value === 'B' ? null : `label is ${json(label.value)}`;
  },
};

export default class KnownScenario {
  constructor(sim) {
    this.sim = sim;
  }
  setup() {
    let what;
    try {
      what = KNOWN[this.sim.cfg.known](this.sim.lib);
    } catch (error) {
      what = 'threw ' + error.message;
    }
    if (what) this.sim.fail('known', what);
  }
  gen() {}
  exec() {}
  check() {}
  onIdle() {
    return false;
  }
  onHostError() {}
}
