From 0c119390ff0c279550173216bd6a57861b82898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 01/35] fix: keep staged updates going when a more urgent
 update is not staged yet

_flush() stopped at the head of the queue when that update's callback had not
run yet and then forgot all staged lanes, so a less urgent update whose callback
had already run was left in the queue with nothing scheduled to process it.
---
 src/runtime.ts | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index 7c6a91e..4ac57f3 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -512,16 +512,24 @@ export class Runtime implements Renderer, Dispatcher {
 
   private async _flush(): Promise<void> {
     while (true) {
-      // Only updates of equal priority are batched. The queue is lane-ordered,
-      // so a UserHandlerLane update is followed only by equal/lower-priority
-      // updates; stopping there commits it as its own batch.
+      // Only updates of equal priority are batched, and only once the host has
+      // run the callback requested for them. Updates that are not staged yet are
+      // set aside so that they do not hold up the staged ones behind them.
+      const deferredUpdates: Update[] = [];
       do {
         const update = this._updateQueue.peek();
-        if (
-          update === undefined ||
-          ((update.lanes & this._stagedLanes) !== update.lanes &&
-            getHighestPriorityLane(this._flushLanes) <
-              getHighestPriorityLane(update.lanes))
+        if (update === undefined) {
+          break;
+        }
+        const lane = getHighestPriorityLane(update.lanes);
+        if (this._flushLanes === NoLanes) {
+          if (!(lane & (this._stagedLanes | SyncLane))) {
+            deferredUpdates.push(this._updateQueue.dequeue()!);
+            continue;
+          }
+        } else if (
+          (update.lanes & this._stagedLanes) !== update.lanes &&
+          getHighestPriorityLane(this._flushLanes) < lane
         ) {
           // The update is not staged yet and lower-priority than the batch;
           // defer it so it commits as its own batch.
@@ -531,6 +539,10 @@ export class Runtime implements Renderer, Dispatcher {
         this._updateBatch.push(this._updateQueue.dequeue()!);
       } while (!(this._flushLanes & UserHandlerLane));
 
+      for (const update of deferredUpdates) {
+        this._updateQueue.enqueue(update);
+      }
+
       if (this._flushLanes === NoLanes) {
         break;
       }
-- 
2.43.0


From 286202a17545ff02bb28c5d44fcf3cf4b8282261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 02/35] fix: do not batch updates of different priorities
 together

A staged update was added to any batch in progress, so less urgent updates were
committed with more urgent ones, a child could be processed before its parent
within one batch, and the handler of a UserHandlerLane update was skipped when
it was merged into a batch with a SyncLane update.
---
 src/runtime.ts | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index 4ac57f3..3402f8a 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -527,12 +527,9 @@ export class Runtime implements Renderer, Dispatcher {
             deferredUpdates.push(this._updateQueue.dequeue()!);
             continue;
           }
-        } else if (
-          (update.lanes & this._stagedLanes) !== update.lanes &&
-          getHighestPriorityLane(this._flushLanes) < lane
-        ) {
-          // The update is not staged yet and lower-priority than the batch;
-          // defer it so it commits as its own batch.
+        } else if (lane !== getHighestPriorityLane(this._flushLanes)) {
+          // The update is lower-priority than the batch; defer it so it commits
+          // as its own batch.
           break;
         }
         this._flushLanes |= update.lanes;
-- 
2.43.0


From 828e608f42e0f51f8efbfb818f2fc41f9a507060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 03/35] fix: process updates of equal priority and level in the
 order they were scheduled

The binary heap is not stable, so three or more renders of a root in one task
could be processed out of order.
---
 src/runtime.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index 3402f8a..2c89ffc 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -620,7 +620,10 @@ function compareUpdates(update1: Update, update2: Update): number {
   }
   const level1 = update1.transaction.scope.level;
   const level2 = update2.transaction.scope.level;
-  return level1 - level2;
+  if (level1 !== level2) {
+    return level1 - level2;
+  }
+  return update1.id - update2.id;
 }
 
 function runPipeline(
-- 
2.43.0


From a1f2c04f7a13a74785e5f8f7981a760ac5208f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 04/35] fix: do not precompute a reducer state while skipped
 actions are waiting

An action dispatched after a render that skipped earlier, less urgent actions
took its eager state from a state without them. When they were finally applied
the eager state replaced their result, so they were lost, and a dispatch equal
to the intermediate state was dropped.
---
 src/component.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/component.ts b/src/component.ts
index 1153477..c8aec5f 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -374,7 +374,11 @@ export class RenderContext {
           const { pendingActions, currentState, reducer } = dispatcher;
           let eagerState: TState | undefined;
 
-          if (pendingActions.length === 0) {
+          // Actions skipped by the last render still precede this one.
+          if (
+            pendingActions.length === 0 &&
+            reducerHook.memoizedActions.length === 0
+          ) {
             const areStatesEqual = options.areStatesEqual ?? is;
             eagerState = reducer(currentState, payload);
 
@@ -400,12 +404,13 @@ export class RenderContext {
         currentState: getInitialState(initialState),
         pendingActions: [],
       };
-      currentHook = {
+      const reducerHook: Hook.ReducerHook<TState, TAction> = {
         type: HookType.REDUCER,
         memoizedState: dispatcher.currentState,
         memoizedActions: [],
         dispatcher,
       };
+      currentHook = reducerHook;
       this._hooks.push(currentHook);
     }
 
-- 
2.43.0


From ac28d47750061ff1349026d5578039eb75e6b65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 05/35] fix: keep a component node committed until its own
 update commits

Setting the work-in-progress children while preparing made the node look
uncommitted to the commits of other updates in the batch and, after a batch was
aborted, to every later one: keyed siblings were inserted before nodes that were
not in the DOM and aborted renders were committed.
---
 src/component.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/component.ts b/src/component.ts
index c8aec5f..802a1c0 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -514,9 +514,14 @@ class UpdateComponent implements Transaction {
     }
     const subScope = node.state.scope.enter(node.type);
     const newElement = node.state.instance.render(node.props, subScope, lanes);
-    node.left = [renderer.diff(node.right[0]!, newElement, subScope, 0, node)];
+    const newChildren = [
+      renderer.diff(node.right[0]!, newElement, subScope, 0, node),
+    ];
     return () => {
       if (node.parent !== null) {
+        // Until here the node counts as committed, so that other commits of the
+        // batch, or those following an aborted batch, see what is in the DOM.
+        node.left = newChildren;
         patch(node.right[0]!, node.left[0]!);
         node.state.instance.connect(node);
         node.right = node.left;
-- 
2.43.0


From 6902cd77dd69f3bcf2d6ac6d7c5959ed7aaeb8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 06/35] fix: apply several renders and unmounts of a root in
 one batch as the last one

---
 src/dom/root.ts | 74 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 62 insertions(+), 12 deletions(-)

diff --git a/src/dom/root.ts b/src/dom/root.ts
index 177f47c..a1f58e8 100644
--- a/src/dom/root.ts
+++ b/src/dom/root.ts
@@ -1,16 +1,23 @@
 import {
   type Container,
   type Dispatcher,
+  type Lane,
   type RenderRoot,
   Scope,
+  type Transaction,
   type UpdateHandle,
   type UpdateOptions,
 } from '../base.js';
 import { mount, patch, unmount } from '../commit.js';
-import { AllLanes } from '../lane.js';
+import { AllLanes, getHighestPriorityLane, UserHandlerLane } from '../lane.js';
 import { wrap } from '../velement.js';
 import { ContainerPart } from './part.js';
 
+interface RootRequest {
+  unmount: boolean; // whether the committed content must be unmounted
+  superseded: boolean; // whether a later request in the same batch replaces it
+}
+
 export class DOMRoot {
   private readonly _container: Container;
   private readonly _dispatcher: Dispatcher;
@@ -19,6 +26,7 @@ export class DOMRoot {
     left: null,
     right: null,
   };
+  private readonly _pendingRequests: Map<Lane, RootRequest> = new Map();
 
   constructor(container: Container, dispatcher: Dispatcher) {
     this._container = container;
@@ -27,14 +35,19 @@ export class DOMRoot {
 
   render(value: unknown, options?: UpdateOptions): UpdateHandle {
     const scope = Scope.root(this);
-    return this._dispatcher.schedule(
+    const request: RootRequest = { unmount: false, superseded: false };
+    return this._schedule(
+      request,
       {
         scope,
         pendingLanes: AllLanes,
         prepare: (_lanes, renderer) => {
+          if (this._startRequest(request)) {
+            return noop;
+          }
           const element = wrap(value);
           this._root.left =
-            this._root.right !== null
+            this._root.right !== null && !request.unmount
               ? renderer.diff(this._root.right, element, scope, 0, this._root)
               : renderer.render(
                   element,
@@ -44,6 +57,9 @@ export class DOMRoot {
                   new ContainerPart(this._container),
                 );
           return () => {
+            if (request.unmount) {
+              this._unmount();
+            }
             if (this._root.right !== null) {
               patch(this._root.right, this._root.left!);
             } else {
@@ -59,20 +75,54 @@ export class DOMRoot {
 
   unmount(options?: UpdateOptions): UpdateHandle {
     const scope = Scope.root(this);
-    return this._dispatcher.schedule(
+    const request: RootRequest = { unmount: true, superseded: false };
+    return this._schedule(
+      request,
       {
         scope,
         pendingLanes: AllLanes,
-        prepare: () => {
-          return () => {
-            if (this._root.right !== null) {
-              unmount(this._root.right);
-              this._root.right = null;
-            }
-          };
-        },
+        prepare: () =>
+          this._startRequest(request) ? noop : () => this._unmount(),
       },
       options,
     );
   }
+
+  private _schedule(
+    request: RootRequest,
+    transaction: Transaction,
+    options: UpdateOptions | undefined,
+  ): UpdateHandle {
+    const handle = this._dispatcher.schedule(transaction, options);
+    const lane = getHighestPriorityLane(handle.lanes);
+    // Requests on the same lane are processed in one batch, in which only the
+    // last one matters. Requests with a handler always have their own batch.
+    if (lane !== UserHandlerLane) {
+      const previousRequest = this._pendingRequests.get(lane);
+      if (previousRequest !== undefined) {
+        previousRequest.superseded = true;
+        request.unmount ||= previousRequest.unmount;
+      }
+      this._pendingRequests.set(lane, request);
+    }
+    return handle;
+  }
+
+  private _startRequest(request: RootRequest): boolean {
+    for (const [lane, pendingRequest] of this._pendingRequests) {
+      if (pendingRequest === request) {
+        this._pendingRequests.delete(lane);
+      }
+    }
+    return request.superseded;
+  }
+
+  private _unmount(): void {
+    if (this._root.right !== null) {
+      unmount(this._root.right);
+      this._root.right = null;
+    }
+  }
 }
+
+function noop() {}
-- 
2.43.0


From 1d4a71b268674e9eec039529f9ec3d4bd5383460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:20 +0000
Subject: [PATCH 07/35] fix: insert children before siblings that are already
 in place

A child whose kind changed, or that was inserted, was placed before the next
sibling of the new list even if that one was not mounted or moved yet, which
threw NotFoundError or left the children in the wrong order; items appended to a
nested list were placed after the items of the outer one. The search for the
sibling also took exponential time for lists of empty children.
---
 src/commit.ts | 61 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/src/commit.ts b/src/commit.ts
index 125c7e2..53f3f8d 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -1,5 +1,7 @@
 import {
   Bind,
+  Fragment,
+  type Mutation,
   MutationType,
   type RenderNode,
   type RenderRoot,
@@ -58,15 +60,17 @@ function applyPatch(
   } else if (typeof newNode.type === 'function') {
     applyPatch(newNode.right[0]!, newNode.left[0]!, 0, newNode);
   } else {
-    for (const mutation of newNode.state.mutations.splice(0)) {
+    const { state } = newNode;
+    // Removals come first, followed by the new children in order. The mutations
+    // left in the state tell which of the later children are not in place yet.
+    state.mutations
+      .reverse()
+      .sort((a, b) => getMutationIndex(b) - getMutationIndex(a));
+    let mutation: Mutation | undefined;
+    while ((mutation = state.mutations.pop()) !== undefined) {
       switch (mutation.type) {
         case MutationType.INSERT:
-          mountChild(
-            mutation.node,
-            mutation.afterNode !== undefined
-              ? getChildDOMNode(mutation.afterNode)
-              : null,
-          );
+          mountChild(mutation.node, getSiblingDOMNode(mutation.node));
           break;
         case MutationType.UPDATE:
           applyPatch(
@@ -83,12 +87,7 @@ function applyPatch(
             mutation.index,
             newNode,
           );
-          moveChild(
-            mutation.newNode,
-            mutation.afterNode !== undefined
-              ? getChildDOMNode(mutation.afterNode)
-              : null,
-          );
+          moveChild(mutation.newNode, getSiblingDOMNode(mutation.newNode));
           break;
         case MutationType.REMOVE:
           unmountChild(mutation.node);
@@ -108,16 +107,42 @@ function getChildDOMNode(node: RenderNode): ChildNode | null {
       return domNode;
     }
   }
-  return getSiblingDOMNode(node);
+  return null;
+}
+
+function getMutationIndex(mutation: Mutation): number {
+  switch (mutation.type) {
+    case MutationType.INSERT:
+      return mutation.node.index;
+    case MutationType.REMOVE:
+      return -1;
+    default:
+      return mutation.index;
+  }
+}
+
+function getPlacedChild(parent: RenderNode, index: number): RenderNode | null {
+  const children: RenderNode[] = parent.left;
+  if (parent.type === Fragment && !isCommitted(parent)) {
+    // Children are processed in order, so those left are at the front.
+    const mutation = parent.state.mutations[children.length - index - 1];
+    if (mutation !== undefined) {
+      return mutation.type === MutationType.UPDATE ? mutation.oldNode : null;
+    }
+  }
+  return children[index]!;
 }
 
 function getSiblingDOMNode(node: RenderNode): ChildNode | null {
   const part = node.part;
   // Only called on non-detached nodes, so parent is never null.
   while (node.parent!.type != null) {
-    const children = isCommitted(node) ? node.parent!.right : node.parent!.left;
-    for (let i = node.index + 1, l = children.length; i < l; i++) {
-      const child = children[i]!;
+    const parent: RenderNode = node.parent!;
+    for (let i = node.index + 1, l = parent.left.length; i < l; i++) {
+      const child = getPlacedChild(parent, i);
+      if (child === null) {
+        continue;
+      }
       if (child.part !== part) {
         break;
       }
@@ -126,7 +151,7 @@ function getSiblingDOMNode(node: RenderNode): ChildNode | null {
         return domNode;
       }
     }
-    node = node.parent!;
+    node = parent;
   }
   return null;
 }
-- 
2.43.0


From f0311dabf8485f51a7ba368c2825b3d54602a68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:20 +0000
Subject: [PATCH 08/35] fix: compare the keys of patched children with
 Object.is as the diff does

---
 src/commit.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commit.ts b/src/commit.ts
index 53f3f8d..f45fc1d 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -6,6 +6,7 @@ import {
   type RenderNode,
   type RenderRoot,
 } from './base.js';
+import { is } from './compare.js';
 
 export function mount(node: RenderNode): void {
   mountChild(node, null);
@@ -43,7 +44,7 @@ function applyPatch(
     reparentChild(oldNode, index, parent);
     return;
   }
-  if (oldNode.type !== newNode.type || oldNode.key !== newNode.key) {
+  if (oldNode.type !== newNode.type || !is(oldNode.key, newNode.key)) {
     unmountChild(oldNode);
     mountChild(newNode, getSiblingDOMNode(newNode));
   } else if (newNode.type === Bind) {
-- 
2.43.0


From 2c4d236fc7df9dd8ca7c1cb53f70a591dbfb1041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 09/35] fix: do not run effects of an unchanged child before
 its own update commits

---
 src/commit.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/commit.ts b/src/commit.ts
index f45fc1d..af7de85 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -19,7 +19,9 @@ export function unmount(node: RenderNode): void {
 
 export function patch(oldNode: RenderNode, newNode: RenderNode) {
   applyPatch(oldNode, newNode, newNode.index, newNode.parent);
-  afterCommit(newNode);
+  if (!isCommitted(newNode)) {
+    afterCommit(newNode);
+  }
 }
 
 function afterCommit(node: RenderNode): void {
-- 
2.43.0


From 3ab1321b93a0f506d9b70c37a62d67006f608af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:56 +0000
Subject: [PATCH 10/35] fix: render again for updates scheduled while the batch
 with the same lanes renders

---
 src/component.ts | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/component.ts b/src/component.ts
index 802a1c0..a01cd22 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -129,7 +129,7 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   /** @internal */
   readonly _dispatcher: Dispatcher;
   /** @internal */
-  _pendingLanes: Lanes = NoLanes;
+  _pendingUpdates: UpdateComponent[] = [];
   /** @internal */
   _context: RenderContext | null = null;
   /** @internal */
@@ -144,11 +144,19 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   }
 
   get pendingLanes(): Lanes {
-    return this._pendingLanes;
+    let pendingLanes = NoLanes;
+    for (const update of this._pendingUpdates) {
+      pendingLanes |= update.pendingLanes;
+    }
+    return pendingLanes;
   }
 
   render(props: TProps, scope: Scope, lanes: Lanes): VElement {
-    this._pendingLanes &= ~lanes;
+    // Updates scheduled from here on need another rendering, even if they have
+    // the same lanes as others of the batch.
+    this._pendingUpdates = this._pendingUpdates.filter(
+      (update) => (update.pendingLanes &= ~lanes) !== NoLanes,
+    );
     if (this._context !== null) {
       this._context._scope = scope;
       this._context._lanes = lanes;
@@ -213,11 +221,10 @@ export class RenderContext {
 
   forceUpdate(options?: UpdateOptions): UpdateHandle {
     const instance = this._instance;
-    const handle = instance._dispatcher.schedule(
-      new UpdateComponent(instance, this._scope),
-      options,
-    );
-    instance._pendingLanes |= handle.lanes;
+    const update = new UpdateComponent(instance, this._scope);
+    const handle = instance._dispatcher.schedule(update, options);
+    update.pendingLanes = handle.lanes;
+    instance._pendingUpdates.push(update);
     return handle;
   }
 
@@ -491,6 +498,7 @@ export function createComponent<TProps = {}, TReturn = unknown>(
 }
 
 class UpdateComponent implements Transaction {
+  pendingLanes: Lanes = NoLanes;
   private readonly _instance: FunctionComponent;
   private readonly _scope: Scope;
 
@@ -503,13 +511,10 @@ class UpdateComponent implements Transaction {
     return this._scope;
   }
 
-  get pendingLanes(): Lanes {
-    return this._instance._pendingLanes;
-  }
-
   prepare(lanes: Lanes, renderer: Renderer): Commit {
     const node = this._instance._connectedNode;
     if (node === null) {
+      this._instance._pendingUpdates = [];
       return noop;
     }
     const subScope = node.state.scope.enter(node.type);
-- 
2.43.0


From 35785fda94c714e584f9c668e73e9fa1e4527d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:36 +0000
Subject: [PATCH 11/35] fix: keep an update pending until a rendering includes
 all of its lanes

---
 src/component.ts | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/component.ts b/src/component.ts
index a01cd22..202e725 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -153,10 +153,15 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
 
   render(props: TProps, scope: Scope, lanes: Lanes): VElement {
     // Updates scheduled from here on need another rendering, even if they have
-    // the same lanes as others of the batch.
-    this._pendingUpdates = this._pendingUpdates.filter(
-      (update) => (update.pendingLanes &= ~lanes) !== NoLanes,
-    );
+    // the same lanes as others of the batch. So do those which have lanes that
+    // are not rendered yet, because their actions are skipped.
+    this._pendingUpdates = this._pendingUpdates.filter((update) => {
+      if ((update.pendingLanes & lanes) !== update.pendingLanes) {
+        return true;
+      }
+      update.pendingLanes = NoLanes;
+      return false;
+    });
     if (this._context !== null) {
       this._context._scope = scope;
       this._context._lanes = lanes;
-- 
2.43.0


From 1ff0540cb173acd5ad9ba42540d6af0d998e00e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 12/35] fix: mark changed properties of a derivable before
 notifying its subscribers

---
 src/addons/signal/derivable.ts | 60 +++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 15 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 8c288c3..b9ba742 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -1,3 +1,4 @@
+import { is } from '../../compare.js';
 import {
   Accessor,
   Atom,
@@ -140,6 +141,15 @@ export function unwrap<T>(value: T): T {
   return (value as any)?.[UNWRAP_TAG] ?? value;
 }
 
+function clearProperties<T>(receiver: Derivable<T>): void {
+  if (receiver._properties !== null) {
+    for (const prop of receiver._properties.values()) {
+      prop._owner = null;
+    }
+    receiver._properties.clear();
+  }
+}
+
 function commitValue<T>(receiver: Derivable<T>): T {
   let pendingValue = receiver._source.value;
   if (receiver._flags & FLAG_NEEDS_COMMIT) {
@@ -160,6 +170,8 @@ function commitValue<T>(receiver: Derivable<T>): T {
 }
 
 function deleteProperty<T>(prop: Derivable<T>): void {
+  prop._flags |= FLAG_DELETED_PROPERTY;
+  markOwners(prop);
   for (
     let owner = prop._owner, reversePath = [prop._key!];
     owner !== null;
@@ -175,10 +187,8 @@ function deleteProperty<T>(prop: Derivable<T>): void {
         },
       });
     }
-    owner._flags |= FLAG_DIRTY_VALUE;
     reversePath.push(owner._key!);
   }
-  prop._flags |= FLAG_DELETED_PROPERTY;
 }
 
 function draftTarget<T>(
@@ -347,6 +357,12 @@ function isNonPrimitive(value: unknown): value is object {
   );
 }
 
+function markOwners<T>(prop: Derivable<T>): void {
+  for (let owner = prop._owner; owner !== null; owner = owner._owner) {
+    owner._flags |= FLAG_DIRTY_VALUE;
+  }
+}
+
 function normalizeKey(key: PropertyKey): NormalizedKey {
   return typeof key === 'number' ? key.toString() : key;
 }
@@ -443,9 +459,32 @@ function resolveProperty<T>(
 }
 
 function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
-  const oldValue = receiver._source.value;
-  // Intentionally throws a TypeError if signal is a Computed (which has no setter).
-  (receiver._source as WritableSignal<T>).value = newValue;
+  const source = receiver._source;
+  if (!(source instanceof WritableSignal)) {
+    throw new TypeError(
+      'Cannot set property value of a signal which has only a getter.',
+    );
+  }
+  const oldValue = commitValue(receiver);
+  const changed = !is(oldValue, newValue);
+  if (changed) {
+    source.write(newValue);
+  }
+  clearProperties(receiver);
+  receiver._flags |= FLAG_PENDING_VALUE;
+  receiver._flags &= ~(FLAG_NEEDS_COMMIT | FLAG_DELETED_PROPERTY);
+  // Subscribers may read any of the owners, so that all of them must be marked
+  // before the first subscriber is notified.
+  markOwners(receiver);
+  if (changed) {
+    source.invalidate({
+      type: 'set',
+      source,
+      path: [],
+      oldValue,
+      newValue,
+    });
+  }
   for (
     let owner = receiver._owner, reversePath = [receiver._key!];
     owner !== null;
@@ -455,7 +494,7 @@ function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
       const level = reversePath.length;
       owner._source.invalidate({
         type: 'set',
-        source: receiver._source,
+        source,
         get path() {
           return reversePath.slice(0, level).reverse();
         },
@@ -463,17 +502,8 @@ function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
         newValue,
       });
     }
-    owner._flags |= FLAG_DIRTY_VALUE;
     reversePath.push(owner._key!);
   }
-  if (receiver._properties !== null) {
-    for (const prop of receiver._properties.values()) {
-      prop._owner = null;
-    }
-    receiver._properties.clear();
-  }
-  receiver._flags |= FLAG_PENDING_VALUE;
-  receiver._flags &= ~(FLAG_NEEDS_COMMIT | FLAG_DELETED_PROPERTY);
 }
 
 function shallowClone<T>(target: T): T {
-- 
2.43.0


From 5ec17d71e4e059bf7d756842bc07e10b63936909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 13/35] fix: keep an undefined initial result of a computed
 signal

---
 src/addons/signal/signal.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/addons/signal/signal.ts b/src/addons/signal/signal.ts
index 164eb59..63cc2d7 100644
--- a/src/addons/signal/signal.ts
+++ b/src/addons/signal/signal.ts
@@ -187,13 +187,13 @@ export class Computed<
     ...signals: UnwrapSignals<TDependencies>
   ) => TResult;
   private readonly _dependencies: TDependencies;
-  private _memoizedResult: TResult | null;
+  private _memoizedResult: TResult | undefined;
   private _memoizedVersion;
 
   constructor(
     computation: (...values: UnwrapSignals<TDependencies>) => TResult,
     dependencies: TDependencies,
-    initialResult: TResult | null = null,
+    initialResult?: TResult,
     initialVersion = -1, // -1 indicates an uninitialized signal.
   ) {
     super();
-- 
2.43.0


From bf5a63ce99b9645465a2ed33f8163ba0d30ee998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 14/35] fix: do not add properties to a draft by reading them

---
 src/addons/signal/derivable.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index b9ba742..267b8d3 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -382,7 +382,8 @@ function resolveProperty<T>(
       FLAG_CONFIGURABLE_PROPERTY |
         FLAG_ENUMERABLE_PROPERTY |
         FLAG_WRITABLE_PROPERTY |
-        FLAG_DYNAMIC_PROPERTY,
+        FLAG_DYNAMIC_PROPERTY |
+        FLAG_DELETED_PROPERTY, // until a value is set
     );
   }
 
-- 
2.43.0


From abc495f1d8b51fd82d9d069680d001c4c1567fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 15/35] fix: reset the value of a deleted property and notify
 its subscribers

---
 src/addons/signal/derivable.ts | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 267b8d3..cd43328 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -170,10 +170,23 @@ function commitValue<T>(receiver: Derivable<T>): T {
 }
 
 function deleteProperty<T>(prop: Derivable<T>): void {
+  if (prop._owner === null) {
+    return;
+  }
+  const source = prop._source;
+  if (source instanceof Atom) {
+    source.write(undefined);
+    clearProperties(prop);
+    prop._flags &= ~FLAG_NEEDS_COMMIT;
+  }
   prop._flags |= FLAG_DELETED_PROPERTY;
   markOwners(prop);
+  if (source instanceof WritableSignal) {
+    source.invalidate({ type: 'delete', source, path: [] });
+  }
   for (
-    let owner = prop._owner, reversePath = [prop._key!];
+    let owner: Derivable<unknown> | null = prop._owner,
+      reversePath = [prop._key!];
     owner !== null;
     owner = owner._owner
   ) {
@@ -181,7 +194,7 @@ function deleteProperty<T>(prop: Derivable<T>): void {
       const level = reversePath.length;
       owner._source.invalidate({
         type: 'delete',
-        source: prop._source,
+        source,
         get path() {
           return reversePath.slice(0, level).reverse();
         },
-- 
2.43.0


From ceabc774c4758d0f061929f318da68a9e2bcf25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 16/35] fix: accept NaN in objects assigned to a draft

---
 src/addons/signal/derivable.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index cd43328..1749e0b 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -313,7 +313,7 @@ function finalizeValue<T>(target: T): T {
     for (const key of Reflect.ownKeys(target as object)) {
       const originalValue = (target as any)[key];
       const finalizedValue = finalizeValue(originalValue);
-      if (originalValue !== finalizedValue) {
+      if (!is(originalValue, finalizedValue)) {
         (target as any)[key] = finalizedValue;
       }
     }
-- 
2.43.0


From 8a7650cf48687d3ef6dc0286ac7edc2a28803eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 17/35] fix: do not run setters again when a derivable commits
 its properties

---
 src/addons/signal/derivable.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 1749e0b..3d36110 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -158,7 +158,10 @@ function commitValue<T>(receiver: Derivable<T>): T {
       if (prop._flags & FLAG_DELETED_PROPERTY) {
         delete (pendingValue as any)[key];
       } else if (prop._flags & FLAG_PENDING_VALUE) {
-        (pendingValue as any)[key] = prop.value;
+        // Accessors are backed by other properties, which are written as well.
+        if (prop._source instanceof Atom) {
+          (pendingValue as any)[key] = prop.value;
+        }
         prop._flags &= ~FLAG_PENDING_VALUE;
       }
     }
-- 
2.43.0


From 7284f01d91193de28f5dcff0a90cfb956ffabcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 18/35] fix: let drafts write properties that have a setter

---
 src/addons/signal/derivable.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 3d36110..0df31f0 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -361,7 +361,7 @@ function getPropertyFlags(descriptor: PropertyDescriptor): number {
   if (descriptor.enumerable) {
     flags |= FLAG_ENUMERABLE_PROPERTY;
   }
-  if (descriptor.writable) {
+  if (descriptor.writable || descriptor.set !== undefined) {
     flags |= FLAG_WRITABLE_PROPERTY;
   }
   return flags;
-- 
2.43.0


From 3eed3d27dd74027e05802c2b6b9ed2f7c13cee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 19/35] fix: list properties that are set again after their
 deletion

---
 src/addons/signal/derivable.ts | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 0df31f0..f591cd7 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -67,7 +67,9 @@ export class Derivable<T> extends Signal<T> {
   }
 
   get value(): T {
-    return commitValue(this);
+    return this._flags & FLAG_DELETED_PROPERTY
+      ? (undefined as T)
+      : commitValue(this);
   }
 
   set value(newValue: T) {
@@ -177,12 +179,9 @@ function deleteProperty<T>(prop: Derivable<T>): void {
     return;
   }
   const source = prop._source;
-  if (source instanceof Atom) {
-    source.write(undefined);
-    clearProperties(prop);
-    prop._flags &= ~FLAG_NEEDS_COMMIT;
-  }
-  prop._flags |= FLAG_DELETED_PROPERTY;
+  clearProperties(prop);
+  prop._flags &= ~FLAG_NEEDS_COMMIT;
+  prop._flags |= FLAG_DELETED_PROPERTY | FLAG_DYNAMIC_PROPERTY;
   markOwners(prop);
   if (source instanceof WritableSignal) {
     source.invalidate({ type: 'delete', source, path: [] });
@@ -482,9 +481,9 @@ function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
       'Cannot set property value of a signal which has only a getter.',
     );
   }
-  const oldValue = commitValue(receiver);
+  const oldValue = receiver.value;
   const changed = !is(oldValue, newValue);
-  if (changed) {
+  if (changed || receiver._flags & FLAG_DELETED_PROPERTY) {
     source.write(newValue);
   }
   clearProperties(receiver);
-- 
2.43.0


From 2b53b664b752cf9f75b54aa41f80531687b6b6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 20/35] fix: detach accessors and getters from an owner that
 has been assigned

---
 src/addons/signal/derivable.ts | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index f591cd7..7b72bdb 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -206,6 +206,15 @@ function deleteProperty<T>(prop: Derivable<T>): void {
   }
 }
 
+function draftOwner<T extends object>(
+  prop: Derivable<unknown>,
+  target: T,
+): { proxy: T; revoke: () => void } {
+  // The owner no longer holds the target once the property has been detached.
+  const owner = (prop._owner as Derivable<T> | null) ?? Derivable.from(target);
+  return draftTarget(owner, target);
+}
+
 function draftTarget<T>(
   receiver: Derivable<T>,
   target: T & object,
@@ -406,10 +415,10 @@ function resolveProperty<T>(
   const flags = getPropertyFlags(descriptor);
 
   if (get !== undefined && set !== undefined) {
-    return new Derivable(
+    const prop: Derivable<unknown> = new Derivable(
       new Accessor(
         () => {
-          const { proxy, revoke } = draftTarget(receiver, target);
+          const { proxy, revoke } = draftOwner(prop, target);
           try {
             return finalizeValue(get.call(proxy));
           } finally {
@@ -417,7 +426,7 @@ function resolveProperty<T>(
           }
         },
         (newValue) => {
-          const { proxy, revoke } = draftTarget(receiver, target);
+          const { proxy, revoke } = draftOwner(prop, target);
           try {
             set.call(proxy, finalizeValue(newValue));
           } finally {
@@ -429,6 +438,7 @@ function resolveProperty<T>(
       key,
       flags,
     );
+    return prop;
   }
 
   if (get !== undefined) {
@@ -448,10 +458,10 @@ function resolveProperty<T>(
         (version, dependency) => version + dependency.version,
         0,
       );
-      return new Derivable(
+      const prop: Derivable<unknown> = new Derivable(
         new Computed(
           () => {
-            const { proxy, revoke } = draftTarget(receiver, target);
+            const { proxy, revoke } = draftOwner(prop, target);
             try {
               return finalizeValue(get.call(proxy));
             } finally {
@@ -466,6 +476,7 @@ function resolveProperty<T>(
         key,
         flags,
       );
+      return prop;
     } finally {
       revoke();
     }
-- 
2.43.0


From 3d4be06e84c2b82b297cf7a353898f17524efaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 21/35] fix: commit the elements and the length of an array in
 the order they were written

---
 src/addons/signal/derivable.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 7b72bdb..8bde1c8 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -382,6 +382,13 @@ function isNonPrimitive(value: unknown): value is object {
 }
 
 function markOwners<T>(prop: Derivable<T>): void {
+  const owner = prop._owner;
+  if (owner?._source instanceof Atom && Array.isArray(owner._source.value)) {
+    // The elements and the length of an array affect each other, so that they
+    // must be committed in the order they were written.
+    owner._properties!.delete(prop._key!);
+    owner._properties!.set(prop._key!, prop as Derivable<unknown>);
+  }
   for (let owner = prop._owner; owner !== null; owner = owner._owner) {
     owner._flags |= FLAG_DIRTY_VALUE;
   }
-- 
2.43.0


From 5057936e997245728101681f42ff7205136b1016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 22/35] fix: do not notify subscribers of a signal after they
 have unsubscribed

---
 src/addons/signal/linked-list.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/addons/signal/linked-list.ts b/src/addons/signal/linked-list.ts
index a93a955..15da8d8 100644
--- a/src/addons/signal/linked-list.ts
+++ b/src/addons/signal/linked-list.ts
@@ -19,8 +19,16 @@ export class LinkedList<T> implements Iterable<T> {
   private _tail: InternalNode<T> | null = null;
 
   *[Symbol.iterator](): Generator<T> {
+    // The list may be changed while it is iterated: deleted nodes are skipped and
+    // appended nodes are not visited.
+    const nodes: InternalNode<T>[] = [];
     for (let node = this._head; node !== null; node = node.next) {
-      yield node.value;
+      nodes.push(node);
+    }
+    for (const node of nodes) {
+      if (node.owner !== null) {
+        yield node.value;
+      }
     }
   }
 
-- 
2.43.0


From 536e7a6b274911c90871c8fc80193f7720ceaaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 23/35] fix: ImperativeHandle resets a ref only while it holds
 its own handle

---
 src/addons/hooks.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/addons/hooks.ts b/src/addons/hooks.ts
index d49b3f1..7285687 100644
--- a/src/addons/hooks.ts
+++ b/src/addons/hooks.ts
@@ -58,9 +58,13 @@ export function ImperativeHandle<T>(
       if (typeof ref === 'function') {
         return ref(createHandle());
       } else if (ref != null) {
-        ref.current = createHandle();
+        const handle = createHandle();
+        ref.current = handle;
         return () => {
-          ref.current = null;
+          // The ref may have been passed to another component by now.
+          if (ref.current === handle) {
+            ref.current = null;
+          }
         };
       }
     }, dependencies?.concat(ref));
-- 
2.43.0


From 7882b572efe27047c5cf5b7a0552c7f1bf020ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:44 +0000
Subject: [PATCH 24/35] fix: Transition stops pending when its action throws

---
 src/addons/hooks.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/addons/hooks.ts b/src/addons/hooks.ts
index 7285687..2549a64 100644
--- a/src/addons/hooks.ts
+++ b/src/addons/hooks.ts
@@ -117,7 +117,13 @@ export function Transition(): HookFunction<
           setIsPending(false, { transition });
         };
         setIsPending(true, { flushSync: true });
-        const result = action(transition);
+        let result: T;
+        try {
+          result = action(transition);
+        } catch (error) {
+          endTransition();
+          throw error;
+        }
         if (result instanceof Promise) {
           result.then(endTransition, endTransition);
         } else {
-- 
2.43.0


From dc635c0d5529e16c062eefffcf571dcb63c8be58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:52 +0000
Subject: [PATCH 25/35] fix: SyncNavigation misses no navigation between its
 rendering and its subscription

---
 src/addons/router/hook.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/addons/router/hook.ts b/src/addons/router/hook.ts
index 4d741cd..2efebc2 100644
--- a/src/addons/router/hook.ts
+++ b/src/addons/router/hook.ts
@@ -1,4 +1,5 @@
 import type { UpdateHandle, UpdateOptions } from '../../base.js';
+import { is } from '../../compare.js';
 import type { HookFunction } from '../../component.js';
 import type { NavigationAdapter, NavigationScene } from './adapter.js';
 
@@ -30,12 +31,21 @@ export function SyncNavigation(
     }));
 
     context.useEffect(() => {
-      return adapter.listen((scene, interceptor) => {
+      const stopListening = adapter.listen((scene, interceptor) => {
         interceptor.intercept({
           handler: () => setScene(scene).finished,
           ...intercept?.(scene, setScene),
         });
       });
+      // There may have been a navigation since the scene was rendered.
+      setScene((scene) => {
+        const url = adapter.getCurrentURL();
+        const state = adapter.getCurrentState();
+        return is(scene.url, url) && is(scene.state, state)
+          ? scene
+          : { url, state, navigationType: null };
+      });
+      return stopListening;
     }, [adapter]);
 
     const navigationContext = new NavigationContext(adapter, scene);
-- 
2.43.0


From 9df60616bbcb421a41fee453192a3cc4df1609a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:52 +0000
Subject: [PATCH 26/35] fix: InMemoryAdapter follows the latest of overlapping
 navigations

---
 src/addons/router/adapter.ts | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/addons/router/adapter.ts b/src/addons/router/adapter.ts
index 003b20a..ad3243d 100644
--- a/src/addons/router/adapter.ts
+++ b/src/addons/router/adapter.ts
@@ -166,25 +166,26 @@ export class InMemoryAdapter implements NavigationAdapter {
           ? 'replace'
           : 'push';
     const scene = { url, state, navigationType };
+    const handlers: NavigationInterceptHandler[] = [];
     const interceptor: NavigationInterceptor = {
-      async intercept({ handler } = {}) {
-        const promise = handler?.();
-        if (promise !== undefined) {
-          promises.push(promise);
+      intercept({ handler } = {}) {
+        if (handler !== undefined) {
+          handlers.push(handler);
         }
       },
       scroll() {},
     };
-    const promises: PromiseLike<void>[] = [];
 
     for (const listener of this._listeners) {
       listener(scene, interceptor);
     }
 
-    await Promise.all(promises);
-
+    // As in browsers, the navigation is committed before handlers are called,
+    // so the latest one wins even if others take longer.
     this._url = url;
     this._state = state;
+
+    await Promise.all(handlers.map((handler) => handler()));
   }
 }
 
-- 
2.43.0


From 3d2120182a4b5ae3af85182100f08fc7eef75979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:52 +0000
Subject: [PATCH 27/35] fix: HashAdapter reports navigations to the current
 hash

---
 src/addons/router/adapter.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/addons/router/adapter.ts b/src/addons/router/adapter.ts
index ad3243d..505f57a 100644
--- a/src/addons/router/adapter.ts
+++ b/src/addons/router/adapter.ts
@@ -105,7 +105,7 @@ export class HashAdapter implements NavigationAdapter {
       if (
         event.canIntercept &&
         event.destination.sameDocument &&
-        event.hashChange
+        (event.hashChange || event.destination.url === this._location.href)
       ) {
         const scene = {
           url: stripLeadingHashmark(new URL(event.destination.url).hash),
-- 
2.43.0


From 5d324530aa45951122756efc0d72e8bc6be87d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:00 +0000
Subject: [PATCH 28/35] fix: allow bindings of camelCase attributes on foreign
 elements in debug builds

The parser gives "viewBox" and the like back with uppercase letters, which the
check of attribute names took for an unclosed tag.
---
 src/dom/template.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dom/template.ts b/src/dom/template.ts
index 9d37626..4d685b5 100644
--- a/src/dom/template.ts
+++ b/src/dom/template.ts
@@ -213,7 +213,9 @@ function collectAttributeHoles(
       const caseSensitiveName = extractAttributeName(strings[holes.length]!);
 
       DEBUG: {
-        if (caseSensitiveName?.toLowerCase() !== name) {
+        // Names of attributes of foreign elements may contain uppercase letters,
+        // e.g. "viewBox".
+        if (caseSensitiveName?.toLowerCase() !== name.toLowerCase()) {
           throw DOMAdapterError.withNode(
             element.getAttributeNode(name)!,
             `The attribute name must be "${name}", but got "${caseSensitiveName}". There are unclosed tags or duplicate attributes.`,
-- 
2.43.0


From 360739ec22bd972e3eb1ef892b3b9e69ec2aa40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:00 +0000
Subject: [PATCH 29/35] fix: reset the value of an attribute when it becomes
 true

toggleAttribute() leaves the value of an attribute that is present as it was.
---
 src/dom/part.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dom/part.ts b/src/dom/part.ts
index dd78029..91efe77 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -55,12 +55,13 @@ export class AttributePart extends DOMPart {
   }
 
   override commitMount(value: unknown): void {
-    if (value == null) {
+    if (value == null || value === false) {
       this._node.removeAttribute(this._name);
-    } else if (typeof value === 'boolean') {
-      this._node.toggleAttribute(this._name, value);
     } else {
-      this._node.setAttribute(this._name, toStringOrEmpty(value));
+      this._node.setAttribute(
+        this._name,
+        value === true ? '' : toStringOrEmpty(value),
+      );
     }
   }
 
-- 
2.43.0


From 38f27d44d205e771a31ab6304aaaf977bd5717c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:00 +0000
Subject: [PATCH 30/35] fix: keep the case of custom properties in style
 bindings

---
 src/dom/part.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dom/part.ts b/src/dom/part.ts
index 91efe77..dc23f0e 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -346,6 +346,10 @@ function normalizeStyle(value: unknown): StyleMap {
  * toCSSProperty('padding-block'); // => 'padding-block'
  */
 function toCSSPropertyName(key: string): string {
+  // Names of custom properties are case-sensitive.
+  if (key.startsWith('--')) {
+    return key;
+  }
   return key
     .replace(CSS_VENDOR_PREFIX_PATTERN, '-$1')
     .replace(CSS_UPPERCASE_LETTER_PATTERN, (c) => '-' + c.toLowerCase());
-- 
2.43.0


From 6a381757329f4c395e515f10510e03dcb719a584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:00 +0000
Subject: [PATCH 31/35] fix: keep !important in style bindings

---
 src/dom/part.ts | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/dom/part.ts b/src/dom/part.ts
index dc23f0e..3e7ebfc 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -5,6 +5,7 @@ import { DOMAdapterError } from './error.js';
 
 const CLASS_TOKEN_SEPARATOR_PATTERN = /\s+/;
 
+const CSS_IMPORTANT_PATTERN = /\s*!\s*important\s*$/i;
 const CSS_UPPERCASE_LETTER_PATTERN = /[A-Z]/g;
 const CSS_VENDOR_PREFIX_PATTERN = /^(webkit|moz|ms|o)(?=[A-Z])/;
 
@@ -365,7 +366,9 @@ function parseCSSText(cssText: string): StyleMap {
   const styleMap: StyleMap = {};
   style.cssText = cssText;
   for (const property of style) {
-    styleMap[property] = style.getPropertyValue(property);
+    const value = style.getPropertyValue(property);
+    const priority = style.getPropertyPriority(property);
+    styleMap[property] = priority !== '' ? `${value} !${priority}` : value;
   }
   return styleMap;
 }
@@ -417,7 +420,13 @@ function updateStyle(
     const value = newProps[key];
     if (value != null) {
       const name = toCSSPropertyName(key);
-      style.setProperty(name, value);
+      const declaration = toStringOrEmpty(value);
+      const component = declaration.replace(CSS_IMPORTANT_PATTERN, '');
+      style.setProperty(
+        name,
+        component,
+        component !== declaration ? 'important' : '',
+      );
     }
   }
 }
-- 
2.43.0


From 62c2d9c3439005cca2f401efece5110a11ba4315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 32/35] fix: do not hand captures of failed routes to the
 resolver, and try the next route after child routes fail

---
 src/addons/router/router.ts | 68 +++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/src/addons/router/router.ts b/src/addons/router/router.ts
index 88c336b..baaa5f5 100644
--- a/src/addons/router/router.ts
+++ b/src/addons/router/router.ts
@@ -32,6 +32,11 @@ type CollectCaptures<TPatterns> = TPatterns extends [infer Head, ...infer Tail]
     ? []
     : unknown[];
 
+interface MatchedRoute<TResult> {
+  resolver: Resolver<TResult, any> | null;
+  captures: unknown[];
+}
+
 export class Router<TResult> {
   private readonly _routes: Route<TResult, Pattern[], []>[] = [];
 
@@ -41,39 +46,8 @@ export class Router<TResult> {
 
   match(url: string): TResult | undefined {
     const components = stripLeadingSlash(url).split('/');
-    const collectedCaptures: unknown[] = [];
-
-    let routes = this._routes;
-    let routeIndex = 0;
-    let componentIndex = 0;
-
-    while (routeIndex < routes.length) {
-      const { patterns, childRoutes, resolver } = routes[routeIndex]!;
-      const captures = collectCaptures(
-        patterns,
-        components,
-        componentIndex,
-        url,
-      );
-
-      if (captures !== null) {
-        collectedCaptures.push(...captures);
-        if (components.length === componentIndex + patterns.length) {
-          return resolver?.(collectedCaptures, url);
-        }
-        if (childRoutes.length > 0) {
-          routes = childRoutes;
-          routeIndex = 0;
-          componentIndex += patterns.length;
-        } else {
-          routeIndex++;
-        }
-      } else {
-        routeIndex++;
-      }
-    }
-
-    return undefined;
+    const matchedRoute = findRoute(this._routes, components, 0, [], url);
+    return matchedRoute?.resolver?.(matchedRoute.captures, url);
   }
 }
 
@@ -122,6 +96,34 @@ function collectCaptures<TPatterns extends Pattern[]>(
   return captures as CollectCaptures<TPatterns>;
 }
 
+/**
+ * Finds the first route in depth-first order that consumes all components.
+ */
+function findRoute<TResult>(
+  routes: Route<TResult, Pattern[], any>[],
+  components: string[],
+  startIndex: number,
+  inheritedCaptures: unknown[],
+  url: string,
+): MatchedRoute<TResult> | undefined {
+  for (const { patterns, childRoutes, resolver } of routes) {
+    const ownCaptures = collectCaptures(patterns, components, startIndex, url);
+    if (ownCaptures === null) {
+      continue;
+    }
+    const captures = [...inheritedCaptures, ...ownCaptures];
+    const endIndex = startIndex + patterns.length;
+    const matchedRoute =
+      endIndex === components.length
+        ? { resolver, captures }
+        : findRoute(childRoutes, components, endIndex, captures, url);
+    if (matchedRoute !== undefined) {
+      return matchedRoute;
+    }
+  }
+  return undefined;
+}
+
 function stripLeadingSlash(path: string): string {
   return path[0] === '/' ? path.slice(1) : path;
 }
-- 
2.43.0


From f2ce8da350d18077bef834a1da53c116ad032cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 33/35] fix: integer matcher does not match NaN

---
 src/addons/router/matchers.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/addons/router/matchers.ts b/src/addons/router/matchers.ts
index 11b6438..cd09207 100644
--- a/src/addons/router/matchers.ts
+++ b/src/addons/router/matchers.ts
@@ -27,7 +27,7 @@ export function encoded(component: string): string {
 
 export function integer(component: string): number | undefined {
   const n = Number.parseInt(component, 10);
-  return n.toString() === component ? n : undefined;
+  return !Number.isNaN(n) && n.toString() === component ? n : undefined;
 }
 
 export function keyword<const T extends string>(s: T): Matcher<T> {
-- 
2.43.0


From 2c8b84f209f4aa65d62bb1e391ffc8f5f0fd9462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 34/35] fix: distinguish partials whose strings only differ in
 grouping

---
 src/velement.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/velement.ts b/src/velement.ts
index dae71c6..bef3fe6 100644
--- a/src/velement.ts
+++ b/src/velement.ts
@@ -53,7 +53,8 @@ export class Partial {
       const value = values[i]!;
       if (value instanceof Partial) {
         literalStrings.push(...value.strings);
-        literalPositions.push(i);
+        // Where the strings of a partial end matters as well as what they are.
+        literalPositions.push(i, value.strings.length);
         flattenedValues.push(...value.values);
       } else {
         flattenedValues.push(value);
-- 
2.43.0


From 0434df29e4086cb08e629da54fe6e6a2e65abc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:50 +0000
Subject: [PATCH 35/35] fix: keep a ref that another binding of the same
 element has claimed

---
 src/component.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/component.ts b/src/component.ts
index 202e725..8a5e10a 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -459,6 +459,7 @@ export class RenderContext {
 
 export class Ref<T> implements Bindable {
   current: T;
+  private _claims: number = 0;
 
   constructor(current: T) {
     this.current = current;
@@ -469,9 +470,11 @@ export class Ref<T> implements Bindable {
 
   [toElement](): VElement {
     return createBind((instance: T) => {
+      const claim = ++this._claims;
       this.current = instance;
       return () => {
-        if (this.current === instance) {
+        // Another binding, even of the same instance, may have claimed it by now.
+        if (this._claims === claim && this.current === instance) {
           this.current = null as T;
         }
       };
-- 
2.43.0

