// Bundles the library from /repo's current working tree into one script text,
// wrapped as a function whose parameters shadow every host global. The text is
// kept in memory; nothing is written into /repo.
import { createRequire } from 'node:module';
import { existsSync } from 'node:fs';
import { fileURLToPath } from 'node:url';
import path from 'node:path';

const HERE = path.dirname(fileURLToPath(import.meta.url));
export const REPO = process.env.VERIF_REPO || '/repo';

const ENTRY = `
export * as core from ${JSON.stringify(REPO + '/src/index.ts')};
export * as hooks from ${JSON.stringify(REPO + '/src/addons/hooks.ts')};
export * as signal from ${JSON.stringify(REPO + '/src/addons/signal.ts')};
export * as router from ${JSON.stringify(REPO + '/src/addons/router.ts')};
export * as logger from ${JSON.stringify(REPO + '/src/addons/update-logger.ts')};
export * as profiler from ${JSON.stringify(REPO + '/src/addons/update-profiler.ts')};
`;

/** Host globals that the bundle must take from the simulator, never from node. */
export const SHADOWED = [
  'window', 'self', 'globalThis', 'document', 'console', 'performance', 'crypto', 'location', 'navigation', 'history',
  'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', 'setImmediate', 'clearImmediate', 'process', 'Buffer',
  'requestAnimationFrame', 'cancelAnimationFrame', 'requestIdleCallback', 'cancelIdleCallback', 'scheduler',
  'MessageChannel', 'MessagePort', 'BroadcastChannel', 'Worker', 'fetch', 'Date', 'Math', 'IntersectionObserver',
  'ResizeObserver', 'MutationObserver', 'Node', 'Element', 'HTMLElement', 'HTMLTemplateElement', 'Document',
  'DocumentFragment', 'CharacterData', 'Text', 'Comment', 'Attr', 'Event', 'CustomEvent', 'MouseEvent', 'EventTarget',
  'NodeFilter', 'NodeList', 'HTMLCollection', 'XMLSerializer', 'DOMParser', 'ShadowRoot', 'SVGElement', 'TreeWalker',
  'NodeIterator', 'HTMLInputElement', 'HTMLTextAreaElement', 'HTMLSelectElement', 'HTMLOptionElement', 'HTMLIFrameElement',
  'getComputedStyle', 'customElements', 'KeyboardEvent', 'InputEvent', 'PointerEvent', 'FocusEvent', 'UIEvent',
  'NamedNodeMap', 'DocumentType', 'ProcessingInstruction', 'CDATASection', 'DOMTokenList', 'CSSStyleDeclaration', 'Range', 'DOMException', 'AbortController', 'AbortSignal',
];

function loadEsbuild() {
  for (const base of [REPO + '/package.json', '/opt/veriftools/node/node_modules/']) {
    try {
      return createRequire(base)('esbuild');
    } catch {}
  }
  throw new Error('esbuild not found');
}

export async function bundle() {
  if (!existsSync(REPO + '/src/index.ts')) throw new Error('no sources at ' + REPO);
  const esbuild = loadEsbuild();
  const texts = [];
  for (const dropLabels of [[], ['DEBUG']]) {
    const result = await esbuild.build({
      stdin: { contents: ENTRY, resolveDir: HERE, sourcefile: 'sim-entry.ts', loader: 'ts' },
      bundle: true,
      write: false,
      format: 'iife',
      globalName: '__barebind',
      platform: 'neutral',
      target: 'esnext',
      sourcemap: false,
      legalComments: 'none',
      dropLabels,
      logLevel: 'silent',
      tsconfigRaw: '{"compilerOptions":{"target":"esnext","verbatimModuleSyntax":true}}',
    });
    texts.push(`(function(${SHADOWED.join(',')}){"use strict";\n${result.outputFiles[0].text}\nreturn __barebind;\n})`);
  }
  await esbuild.stop?.();
  return texts; // [debug build, production build]
}
