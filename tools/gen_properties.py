#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": observe, "hook_needed": None}})

prop("C01", "The committed DOM always equals a fresh render of the committed state",
 "Between any two host tasks the DOM below a root's container is exactly what mounting from scratch the last committed output of every mounted component would produce: the same elements, attributes, texts and order, with nothing missing, duplicated, stale or left over. This holds for any tree of templates, nested components, keyed and unkeyed lists, text and empty holes, whatever sequence of state updates, re-renders, moves, type changes and removals led there.",
 ["histories", "schedules", "inputs"],
 "every history of renders and dispatches, at any mix of priorities, and every legal order in which the host runs the callbacks, frames and timers the library asked for",
 "The integration tests sample a few dozen one- or two-step transitions, each awaited before the next; incremental patching goes wrong only for particular combinations of overlapping updates, moves, empty components and type changes.",
 ["src/runtime.ts", "src/commit.ts", "src/component.ts", "src/dom/block.ts", "src/dom/part.ts", "src/dom/template.ts"],
 [("diff / diffChildren", "src/runtime.ts"), ("applyPatch, mountChild, moveChild, sibling search", "src/commit.ts"), ("block mount/move/unmount", "src/dom/block.ts")],
 ["the container's child nodes after every host task", "outputs recorded by component functions and committed by their effects"],
 [("left/right", "work-in-progress and committed children of a render node", "src/base.ts")])

prop("C02", "Every scheduled update settles and nothing is left waiting",
 "The promise returned for every render, unmount, dispatch or forced update settles once the host has run every callback, timer and frame the library asked for, whatever the order it ran them in and even if the document is hidden so that frames never come. After that no requested change remains unapplied and the library asks for no further work. `step` tells whether an update is waiting and ends with the one that comes next.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "all interleavings of host callbacks of different priorities with new updates, with and without postTask, idle callbacks and animation frames, and with failing renders and commit handlers in between",
 "Tests await one update at a time, so two priorities are never in flight with their callbacks firing in the unexpected order.",
 ["src/runtime.ts", "src/queue.ts", "src/lane.ts", "src/dom/adapter.ts"],
 [("schedule: callback de-duplication per lane", "src/runtime.ts"), ("flush loop", "src/runtime.ts"), ("requestCallback/requestCommit", "src/dom/adapter.ts")],
 ["UpdateHandle.finished of every call", "the simulator's queue of requested host callbacks"],
 [("pending/staged/flush lanes", "which lanes await a callback, are ready, are being flushed", "src/runtime.ts")])

prop("C03", "No dispatched state change is lost, duplicated or reordered",
 "While a component stays mounted, the state a hook returns is always the initial value with some of the dispatched actions applied, each at most once and in dispatch order, and once all updates have settled it is exactly the fold of all of them. An action is included in what is shown by the time its own update is reported finished and is never un-applied afterwards; an action whose update was rejected may be applied by a later rendering or not, but never out of order.",
 ["histories", "schedules", "inputs"],
 "any sequence of dispatches (values, updater functions, reducer actions, no-op actions) at any mix of priorities, from event handlers, effects and renders, interleaved arbitrarily with re-renders by the parent",
 "Two tests combine two lanes once each; eager evaluation, rebasing of skipped actions and bail-outs interact only in longer mixed-priority sequences.",
 ["src/component.ts", "src/runtime.ts", "src/lane.ts"],
 [("useReducer action queue with eager state", "src/component.ts"), ("lane masks and pending lanes of an instance", "src/component.ts")],
 ["state value seen by each committed render", "UpdateHandle.finished"],
 [("pendingActions/memoizedActions", "actions not yet folded / retained for rebasing", "src/component.ts")])

prop("C04", "Commits are atomic and finished means visible",
 "An update changes the DOM only in its own commit: rendering alone changes nothing on the page, and no host task ever observes part of a commit. Updates issued together in one task at the same priority become visible together, and when an update is reported finished its result is already visible.",
 ["schedules", "histories"],
 "every interleaving of rendering, waiting for the frame, further dispatches and commits, over several components and roots updated together",
 "Tests look at the DOM only after awaiting the update; the window between render and commit, where other tasks run, is never observed.",
 ["src/runtime.ts", "src/component.ts", "src/dom/root.ts", "src/dom/adapter.ts"],
 [("flush: prepare all, then commit all in one callback", "src/runtime.ts"), ("double-buffered children", "src/base.ts")],
 ["DOM snapshots at every host task boundary", "UpdateHandle.finished"])

prop("C05", "Root renders and unmounts take effect in the order they were called",
 "Calls to a root's render and unmount made at the same priority take effect in call order, however many are made before the first one is processed: the root ends up showing the value of the last render, or nothing if the last call was an unmount. A render after an unmount always starts from fresh component state, and nodes that were already in the container are never touched.",
 ["histories", "schedules"],
 "all sequences of render and unmount calls on several roots, arriving in one task, during rendering, or while an earlier commit is waiting for its frame",
 "The tests await every render and unmount before the next call.",
 ["src/dom/root.ts", "src/runtime.ts", "src/queue.ts"],
 [("root transactions", "src/dom/root.ts"), ("update ordering in the priority queue", "src/runtime.ts")],
 ["container content after the updates settle", "mount/unmount effects of root components"])

prop("C06", "Keyed children keep their identity across any reordering",
 "When a list is re-rendered, an item whose key and kind are still present keeps the very same DOM nodes and the same component instance with its state, and appears at its new position; items with new keys are created fresh, and items whose keys disappeared are removed with their state. This holds for any permutation, insertion and removal, for any key values that are the same by Object.is, and also when items update themselves at the same time.",
 ["inputs", "histories", "schedules"],
 "all pairs of key sequences without duplicates, nested lists, items that render nothing or several nodes, with item self-updates landing in the same or neighbouring commits",
 "The fragment tests enumerate permutations of a few plain items with nothing else in flight.",
 ["src/runtime.ts", "src/commit.ts", "src/dom/block.ts"],
 [("two-ended keyed diff", "src/runtime.ts"), ("moveChild / reparentChild", "src/commit.ts")],
 ["identity of element nodes and component instances per key"])

prop("C07", "Effects run exactly once per change, paired with cleanups, in order",
 "For each effect, setup and cleanup alternate strictly: setup runs once after mounting and again exactly after those committed re-renders in which its dependencies changed, each time preceded by the cleanup of the previous run, and unmounting runs the last cleanup exactly once. Effects run only after the DOM of their update is in place, children before parents on mount and parents before children on unmount, and never for a render that was not committed.",
 ["histories", "schedules", "fault_sequences"],
 "all histories of mounts, re-renders, dependency changes, moves, removals and failed renders, including updates dispatched from inside effects and cleanups",
 "Each rule has one test on a static two-level tree with awaited updates.",
 ["src/component.ts", "src/commit.ts"],
 [("connect / disconnect", "src/component.ts"), ("afterCommit / unmountChild traversal", "src/commit.ts")],
 ["log of setup and cleanup calls with the DOM state at each call"],
 [("dirty", "effect must run at next commit", "src/component.ts")])

prop("C08", "A failing render changes nothing on screen and the UI stays usable",
 "If a component throws while rendering (or a commit handler fails before committing), every update of that batch is rejected with the error (that of a component is wrapped in one that, in development, names the components around it), the DOM, effects and references stay exactly as they were, and no other batch, root or runtime is disturbed. Later updates of the same or other components then work normally and lead to the same result as if the failed rendering had not been attempted.",
 ["fault_sequences", "histories", "schedules"],
 "failures injected into any component at any of its renders, on mount or update, in batches with other components and roots, followed by any further updates",
 "The tests inject one failure on the first render of a root and stop there.",
 ["src/runtime.ts", "src/component.ts", "src/commit.ts", "src/dom/root.ts"],
 [("catch in the flush loop", "src/runtime.ts"), ("work-in-progress buffers discarded on failure", "src/component.ts")],
 ["DOM before and after the failure", "rejections", "results of later updates"])

prop("C09", "More urgent updates are shown first; flushSync needs no host task",
 "When updates of different priorities are waiting and the host has already granted all requested callbacks, they become visible in priority order, and a less urgent update never delays or is merged ahead of a more urgent one. An update that is not synchronous is processed only after the host has run a callback requested for its own priority (that of a transition or a delayed update is background): such work does not ride along with urgent work. A synchronous update issued while nothing is being processed is visible before the host runs any other task, and the default priority follows the event being handled.",
 ["schedules", "histories"],
 "all mixes of synchronous, handler, user-blocking, user-visible, background, transition and delayed updates over all host callback orders",
 "One test issues two priorities from one click; order is not observed when more are queued behind a waiting frame.",
 ["src/runtime.ts", "src/lane.ts", "src/queue.ts", "src/dom/adapter.ts"],
 [("lane order in the queue", "src/runtime.ts"), ("getRenderLanes", "src/lane.ts"), ("getTaskPriority", "src/dom/adapter.ts")],
 ["order in which update handles finish and results become visible"])

prop("C10", "A commit handler is called exactly once and controls its commit",
 "For a root render that carries its own commit handler, the handler is called exactly once with a commit function; the new content is not visible before the handler calls it (never, if it does not), is completely visible as soon as it returns, and the update is finished only after the handler's promise settles. This holds no matter what other updates are queued or in progress.",
 ["schedules", "histories", "fault_sequences"],
 "handlers that commit immediately, after any number of host tasks, or fail, mixed with synchronous and lower-priority updates queued before, during and after",
 "A single test runs one handler with an otherwise empty queue.",
 ["src/runtime.ts", "src/lane.ts"],
 [("UserHandlerLane batch separation", "src/runtime.ts")],
 ["handler call log against DOM snapshots"])

prop("C11", "Every observer of a signal ends up showing its current value",
 "A component that uses a signal, or a signal placed directly in a template, shows the signal's current value once updates settle, whatever writes happened before, during or between its render, its commit and its effects, and whichever components were mounted, moved to another signal or unmounted meanwhile. Several writes in a row cause at most one extra update per observer, and unmounted observers are never updated.",
 ["schedules", "histories"],
 "writes placed at every point relative to render, commit, effect and microtask boundaries, over several observers of shared and derived signals",
 "Tests write a signal once after an awaited render.",
 ["src/addons/signal/signal.ts", "src/addons/signal/hooks.ts"],
 [("onUse: snapshot check after commit and microtask batching", "src/addons/signal/signal.ts")],
 ["DOM text per observer at quiescence", "render counts"])

prop("C12", "Computed signals always agree with their dependencies",
 "Reading a computed signal, at any moment and from anywhere (including inside a subscriber that is being notified), returns its function applied to the current values of its dependencies, for any graph of derived signals. The function is re-evaluated at most once per change of a dependency, and subscribers are notified of every change of anything it depends on until they unsubscribe, even if subscriptions change during notification.",
 ["histories", "schedules", "fault_sequences"],
 "all dependency graphs (chains, diamonds, mixed with store properties), write/read/subscribe/unsubscribe orders, re-entrant subscribers and computations that throw",
 "Unit tests cover fixed two-level graphs with straight-line operations.",
 ["src/addons/signal/signal.ts", "src/addons/signal/linked-list.ts"],
 [("version comparison", "src/addons/signal/signal.ts"), ("subscriber list tolerant to removal", "src/addons/signal/linked-list.ts")],
 ["values read, evaluation counts, notification log"])

prop("C13", "A derivable store behaves like the plain object it wraps",
 "Any sequence of reads, writes, deletes and draft edits on a derivable store gives the same values as the same operations on a plain mutable object, while every value previously handed out stays unchanged, unchanged parts keep their identity, and a draft can no longer be used once its callback has returned or thrown. Subscribers of the changed part and of all enclosing parts are notified of each change with the right path and values, shallow subscribers only when the part itself is assigned, and others are not.",
 ["histories", "inputs", "fault_sequences"],
 "all operation sequences on nested objects and arrays with getters and setters, through property handles and drafts, with callbacks failing midway",
 "Unit tests apply one to three operations to fixed shapes; pending-value commit, re-parenting and deletion interact over longer histories and failures.",
 ["src/addons/signal/derivable.ts"],
 [("pending/commit flags", "src/addons/signal/derivable.ts"), ("draft proxy", "src/addons/signal/derivable.ts")],
 ["values, identities, notification log"])

prop("C14", "Unmounting releases everything and leaves nothing behind",
 "Once an unmount or removal has been committed, every node the removed content had put in the page is gone, including content shown in other containers, nodes the application put there itself are still in place, all its event listeners are detached, its element references are cleared, its effects cleaned up and its subscriptions ended. Updates still pending for removed components change nothing, call nothing and still finish.",
 ["histories", "schedules"],
 "removal at any level, with any updates of the removed components pending, rendered but not committed, or dispatched later from stale callbacks",
 "Two tests cover one pending child update each.",
 ["src/commit.ts", "src/component.ts", "src/dom/part.ts", "src/dom/root.ts"],
 [("unmountChild cascade", "src/commit.ts"), ("disconnect", "src/component.ts"), ("commitUnmount", "src/dom/part.ts")],
 ["container and portal targets", "listener, ref, effect and subscription ledgers"])

prop("C15", "Readers of an external store never end up stale or torn",
 "Components that read an external store through the store hook all show the store's current snapshot once the running task and its microtasks are over, and no commit is being waited for, even if the store changed between their render and their commit or subscription, or the subscribe or snapshot function was swapped. Store changes after unmount cause nothing, and every subscription is released exactly once.",
 ["schedules", "histories"],
 "store writes at every point relative to render, commit, effect and subscription of several readers under different priorities",
 "The tests change the store once between awaited updates.",
 ["src/addons/hooks.ts"],
 [("post-commit snapshot comparison and synchronous re-render", "src/addons/hooks.ts")],
 ["DOM text of each reader", "subscription ledger"])

prop("C16", "An event always reaches exactly the listener of the last commit",
 "Dispatching an event to a bound element calls the listener given in the last committed render exactly once, with the bound capture and passive options, whether listeners were swapped between functions, objects, different options and nothing; a once listener is called by the first event only, and a listener bound with a signal until that signal is aborted; a listener from a render that is not committed, or from an earlier commit, is never called. After the element's content is removed no listener is called.",
 ["histories", "schedules"],
 "all sequences of listener changes and events interleaved with rendering and commits",
 "Tests swap one listener once and fire once.",
 ["src/dom/part.ts"],
 [("EventPart indirection and option comparison", "src/dom/part.ts")],
 ["listener invocation log"])

prop("C17", "Element references and element callbacks follow the committed DOM",
 "While an element binding is committed its reference holds exactly that element, already when effects run and still when their cleanups run on removal; when the binding is moved to another reference or removed, the old one is cleared unless something else has claimed it. Element callbacks are called once per committed binding change and their cleanups exactly once before the next one or at removal.",
 ["histories", "schedules", "fault_sequences"],
 "all sequences of swapping references and callbacks between elements, with removals, moves and failed renders",
 "A handful of tests each change one ref once.",
 ["src/component.ts", "src/dom/part.ts"],
 [("Ref binding with identity-guarded clear", "src/component.ts"), ("ElementPart", "src/dom/part.ts")],
 ["ref.current at effects and at task boundaries", "callback log"])

prop("C18", "Deferred values and transitions converge and never block urgent work",
 "A deferred value starts with the initial value if there is one, eventually equals the latest value given, shows only values that were given, and never goes back to an older one. A transition reports pending before its own updates are shown, the updates it starts together appear as one, and it reports done no earlier than the action and the updates it started have finished and no later than when everything has settled, also when the action fails, which only its caller is told.",
 ["schedules", "histories", "fault_sequences"],
 "any sequence of value changes and non-overlapping transitions with synchronous, asynchronous and failing actions, interleaved with urgent updates",
 "Each is tested with one change or one transition.",
 ["src/addons/hooks.ts", "src/lane.ts", "src/component.ts"],
 [("transition lanes", "src/lane.ts"), ("DeferredValue, Transition", "src/addons/hooks.ts")],
 ["sequence of shown values and pending flags"])

prop("C19", "Injected context is the one provided by the nearest ancestor",
 "A component always receives the instance most recently provided, in the ancestor's last render, by itself or else by the nearest ancestor that provides that kind, or else the default; siblings, other roots and unmounted components never leak theirs. A component that is re-rendered by its own update sees the instances of the ancestor renders that last reached it.",
 ["histories", "schedules"],
 "all trees with providers appearing, disappearing, and changing instances, combined with child-only updates and moves",
 "Tests use one fixed two-level tree.",
 ["src/component.ts", "src/base.ts", "src/runtime.ts"],
 [("Scope chain", "src/base.ts"), ("inject/provide", "src/component.ts")],
 ["instance seen by each committed render"])

prop("C20", "Host callbacks and commits run exactly once under every host",
 "Every callback handed to the DOM host adapter runs exactly once, never in the caller's task, with the requested priority mapped to the host's facilities, on hosts with or without task scheduling, idle callbacks and animation frames. A requested commit runs exactly once, with the frame if one comes and otherwise within a bounded time when frames never come, and failures of a callback are reported to its caller and harm no other callback.",
 ["configurations", "schedules", "fault_sequences"],
 "all host capability combinations, hidden and visible documents, stalls, clock jumps, late frames racing the fallback timer, and throwing callbacks",
 "Tests run one host with mocked single callbacks.",
 ["src/dom/adapter.ts"],
 [("requestCallback", "src/dom/adapter.ts"), ("requestCommit with timer fallback", "src/dom/adapter.ts")],
 ["callback run log against simulated time"])

prop("C21", "The shown route follows the latest navigation",
 "With navigation kept in sync, once navigations settle the scene provided to components, the page content and the adapter's current URL and state all correspond to the latest navigation requested, even if navigations overlap, their handlers finish out of order, or components are mounted, re-rendered, given another adapter or unmounted meanwhile; after navigations that fail this is so again with the next one that does not. (Handlers of the application must not show the scene of a navigation that is superseded.) A navigation is reported finished only after its handlers are done and its scene, or a later one, is visible, and after unmount the adapter has no listener left.",
 ["schedules", "histories", "fault_sequences"],
 "all orders of overlapping navigations through the in-memory, browser and hash adapters with slow and failing interceptors",
 "Tests navigate once and await it.",
 ["src/addons/router/adapter.ts", "src/addons/router/hook.ts"],
 [("SyncNavigation effect and intercept handler", "src/addons/router/hook.ts"), ("InMemoryAdapter.navigate", "src/addons/router/adapter.ts")],
 ["scene in committed DOM", "adapter.getCurrentURL/State"])

prop("C22", "Middleware sees each processed update once and is transparent",
 "Each update that is rendered passes exactly once through every middleware in registration order, with render nested inside and its commit called once, the bundled update logger reports each committed or failed update exactly once, and the bundled profiler measures each completed one, its rendering and its commit, from before to after. Adding or removing such observing middleware (or removing it once more) at any time between updates changes neither the DOM, nor effect order, nor which updates succeed or fail.",
 ["histories", "schedules", "configurations", "fault_sequences"],
 "all workloads with and without middleware installed, including failing renders and middleware added or removed between batches",
 "Tests use one middleware and one update.",
 ["src/runtime.ts", "src/addons/update-logger.ts", "src/addons/update-profiler.ts"],
 [("runPipeline", "src/runtime.ts"), ("UpdateLogger.handle", "src/addons/update-logger.ts"), ("UpdateProfiler.handle", "src/addons/update-profiler.ts")],
 ["middleware call log, log groups and user-timing marks, DOM digest with and without"])

prop("C23", "Bindings reach their latest value and leave other people's state alone",
 "After every commit each bound attribute, class token, style property, DOM property and text equals its latest bound value, and entries dropped from a class or style binding are removed, while attributes, class tokens and style properties that the application or the user set outside the binding are preserved. Live bindings override what the user typed with every commit, whereas unchanged ordinary bindings do not touch the element.",
 ["histories", "inputs", "schedules"],
 "all value sequences for all binding kinds, with external changes to the same element between rendering, commit and the next update",
 "Tests apply one or two values per kind without interference.",
 ["src/dom/part.ts"],
 [("updateClass, updateStyle", "src/dom/part.ts"), ("AttributePart, LivePart, PropertyPart", "src/dom/part.ts")],
 ["element attributes, classList, style and properties"])

prop("C24", "Hook identities are stable and memoized values follow their dependencies",
 "For the whole life of a component its identifier, refs and dispatch functions stay the same and its identifier is unique among all components and runtimes sharing the page. A memoized value is always the one computed from the dependencies of the current render and is recomputed exactly when they change, including across renders that failed or were never committed. A render that calls its hooks in another order, or more or fewer of them, than the first one did is refused with an error.",
 ["histories", "fault_sequences", "schedules"],
 "all histories of renders, dependency changes, moves and injected render failures",
 "Tests re-render once.",
 ["src/component.ts", "src/runtime.ts", "src/dom/adapter.ts", "src/compare.ts"],
 [("hook slots", "src/component.ts"), ("nextIdentifier", "src/runtime.ts")],
 ["hook values recorded by each render"])

prop("C25", "Portal content lives in its target and nowhere else",
 "The content of a portal is always shown inside the container it was last committed with, following the owner's updates; switching the container or removing the portal, alone or together with any ancestor, takes all of it away from the old container, and nodes that were already there are never disturbed. The portal leaves the content around its place in the owner untouched.",
 ["histories", "schedules"],
 "all sequences of portals appearing, changing target or content, being moved in lists and removed with their ancestors, together with updates of components inside them",
 "Tests mount, move and unmount one portal once.",
 ["src/runtime.ts", "src/commit.ts", "src/dom/part.ts", "src/dom/block.ts", "src/velement.ts"],
 [("ContainerPart", "src/dom/part.ts"), ("renderPortal", "src/dom/adapter.ts")],
 ["child nodes of portal targets"])

prop("C26", "Independent roots and runtimes never interfere",
 "What happens under one root, including failures, waiting commits and unmounting, never changes the content, component states or effects under another root, whether they share a runtime or each have their own in the same document; with runtimes of their own it does not change how the other root's updates end either, whereas updates of one runtime that are processed in one batch succeed or fail together.",
 ["histories", "schedules", "fault_sequences"],
 "all interleavings of two roots on one runtime and of two runtimes, sharing templates, components and the host scheduler",
 "Every test uses one root and one runtime.",
 ["src/runtime.ts", "src/dom/root.ts", "src/dom/adapter.ts", "src/velement.ts"],
 [("per-runtime queue and lanes", "src/runtime.ts"), ("per-adapter template cache", "src/dom/adapter.ts")],
 ["history and DOM of each root compared with the same workload run alone"])

prop("C27", "Components render only for a reason and never miss one",
 "A component function runs only if its own update is being processed or its parent rendered it with props that do not compare equal; a dispatch that leaves the state unchanged (by identity, or by the equality passed with it) while nothing else is pending renders nothing and finishes at once. Conversely every render of the parent with different props, and every effective state change, is followed by a render of the component that sees the newest props and state before the change is reported finished.",
 ["histories", "schedules"],
 "all trees mixing identity-, shallow- and custom-compared components with overlapping own and parent updates",
 "Tests check one skip at a time with nothing else pending.",
 ["src/component.ts", "src/runtime.ts", "src/compare.ts"],
 [("arePropsEqual and pending-lane test in diff", "src/runtime.ts"), ("dispatch bail-out", "src/component.ts")],
 ["render log with props and causes"])

prop("C28", "Effect events and imperative handles track the latest commit",
 "A function obtained from the effect-event hook always runs the callback of the last committed render when called from event handlers, timers or later effects, never one from an uncommitted or older render. An imperative handle is available in the given ref exactly while the component is mounted, is rebuilt exactly when its dependencies change, and moves when the ref changes.",
 ["histories", "schedules", "fault_sequences"],
 "calls placed before, between and after renders and commits, with failing renders and ref swaps",
 "Tests call once after one awaited update.",
 ["src/addons/hooks.ts"],
 [("EffectEvent", "src/addons/hooks.ts"), ("ImperativeHandle", "src/addons/hooks.ts")],
 ["which callback version ran", "ref contents"])

prop("C29", "Transient and given-anew state never outlasts the rendering it is for",
 "A transient dispatch is shown by the commit its handle reports finished (or an earlier one) and only ever in renderings of its own lanes: every other rendering shows the state as if it had never been dispatched, and the lasting dispatches before, between and after such ones are each applied exactly once, in order, and never lost with them. A state declared passthrough is the value given by the current rendering whenever no dispatch on it is being rendered.",
 ["histories", "schedules"],
 "all interleavings of transient and lasting dispatches of any priority, transition, delay and combination of these, with renderings by the parent, on components that stay mounted",
 "Tests dispatch one transient change and give one new value.",
 ["src/component.ts"],
 [("useReducer: lanes and revertLanes of actions", "src/component.ts"), ("StateOptions.passthrough", "src/component.ts")],
 ["states that components render, DOM, settled handles"])

prop("C90", "Routes and templates mean the same whatever was rendered or failed before",
 "Matching a URL against a route table calls the resolver of the first route in depth-first order whose patterns consume the whole path with exactly the values its own patterns and its ancestors' patterns captured, or gives nothing when there is no such route. A template composed of partials is the one obtained by splicing their strings and values, and is the same template, keeping its elements, exactly when the composition is the same. A template with an expression where none can be is refused with an error, and what is shown stays as it is. None of this depends on earlier, interrupted or failed matches, compositions and renderings anywhere on the page.",
 ["histories", "inputs", "fault_sequences"],
 "all route tables, URLs and nestings of partials used by components rendered in any order, with matchers, resolvers and renderings that throw half-way (regular expressions that are sticky and malformed escape sequences excluded)",
 "Tests match and compose once, in a fresh process.",
 ["src/addons/router/router.ts", "src/addons/router/matchers.ts", "src/velement.ts"],
 [("Router.match", "src/addons/router/router.ts"), ("Partial.parse", "src/velement.ts")],
 ["what resolvers are called with, rendered DOM and element identity"])

# Listed so that the scope is honest, not claimed (see DESIGN.md).
prop("C91", "Template minification preserves template meaning",
 "Building with the template-minifying plugin produces templates that parse to the same nodes and holes as the originals.",
 ["programs"],
 "all source programs containing tagged templates",
 "Tests list examples.",
 ["tools/esbuild-plugin-minify-templates"],
 [("minifier", "tools/esbuild-plugin-minify-templates")],
 ["plugin output"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
