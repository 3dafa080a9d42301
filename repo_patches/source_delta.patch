From f34db4515f52e2c94ff3b2ffc31e60ceb926da60 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 01/35] fix: combine min/max across chunks along the aggregated
 axis

The min and max streams handlers kept only the result of the last chunk of
an output region, so statistics of arrays chunked along the aggregated axis
were wrong.
---
 biggus/_init.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index cd78b54..80558c7 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2329,7 +2329,7 @@ class _CountMaskedStreamsHandler(_AggregationStreamsHandler):
 
 class _MinStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
 
     def finalise(self):
         array = self.result
@@ -2340,12 +2340,16 @@ class _MinStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.result = np.min(data, axis=self.axis)
+        result = np.min(data, axis=self.axis)
+        if self.result is not None:
+            # Combine with the preceding chunks along the aggregated axis.
+            result = np.minimum(self.result, result)
+        self.result = result
 
 
 class _MinMaskedStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
 
     def finalise(self):
         array = self.result
@@ -2356,12 +2360,17 @@ class _MinMaskedStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
+        if self.result is not None:
+            # Combine with the preceding chunks along the aggregated axis.
+            previous = np.ma.array(self.result, dtype=data.dtype)
+            data = np.ma.concatenate(
+                [np.expand_dims(previous, self.axis), data], axis=self.axis)
         self.result = np.min(data, axis=self.axis)
 
 
 class _MaxStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
 
     def finalise(self):
         array = self.result
@@ -2372,12 +2381,16 @@ class _MaxStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.result = np.max(data, axis=self.axis)
+        result = np.max(data, axis=self.axis)
+        if self.result is not None:
+            # Combine with the preceding chunks along the aggregated axis.
+            result = np.maximum(self.result, result)
+        self.result = result
 
 
 class _MaxMaskedStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
 
     def finalise(self):
         array = self.result
@@ -2388,6 +2401,11 @@ class _MaxMaskedStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
+        if self.result is not None:
+            # Combine with the preceding chunks along the aggregated axis.
+            previous = np.ma.array(self.result, dtype=data.dtype)
+            data = np.ma.concatenate(
+                [np.expand_dims(previous, self.axis), data], axis=self.axis)
         self.result = np.max(data, axis=self.axis)
 
 
-- 
2.43.0


From 236f2545baa3b50c24fdf2003c44b1c91214ad18 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 02/35] fix: evaluate elementwise operations on differently
 chunked inputs

The inputs of an elementwise node were combined chunk by chunk on the
assumption that they are divided identically. For inputs such as the sum of
a larger array and an array of the resulting shape that's not true, which
gave wrong results or an error. Such an operation is now evaluated region
by region, like a data source.
---
 biggus/_init.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 80558c7..d34f4c9 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -362,15 +362,45 @@ class AllThreadedEngine(Engine):
             self.arrays = arrays
             self.indices = indices
             self._node_cache = {}
+            self._chunking_cache = {}
 
         def __repr__(self):
             return 'Group({}, {})'.format(self.arrays, self.indices)
 
+        def _chunking(self, array, masked):
+            """
+            Return the slices which divide up each dimension of the
+            array into Chunks, and whether those Chunks are computed
+            from the Chunks of the array's sources.
+
+            That's not possible if the sources are divided differently.
+            In that case the array is evaluated like a data source.
+
+            """
+            chunking = self._chunking_cache.get(id(array), None)
+            if chunking is None:
+                slices = _all_slices_inner(array.shape, always_slices=True)
+                slices = [[s.indices(size) for s in dim_slices]
+                          for dim_slices, size in zip(slices, array.shape)]
+                streamed = False
+                if hasattr(array, 'streams_handler'):
+                    inputs = [self._chunking(source, masked)[0]
+                              for source in array.sources]
+                    if all(other == inputs[0] for other in inputs):
+                        streamed = True
+                        slices = inputs[0]
+                        handler = array.streams_handler(masked)
+                        if hasattr(handler, 'output_keys'):
+                            slices = list(handler.output_keys(slices))
+                chunking = self._chunking_cache[id(array)] = (slices, streamed)
+            return chunking
+
         def _make_node(self, array, iteration_order, masked):
             cache_key = id(array)
             node = self._node_cache.get(cache_key, None)
             if node is None:
-                if hasattr(array, 'streams_handler'):
+                _, streamed = self._chunking(array, masked)
+                if streamed:
                     node = StreamsHandlerNode(array,
                                               array.streams_handler(masked))
                     iteration_order = node.input_iteration_order(
-- 
2.43.0


From 0935aef3726350b9c2983624c407b11a30d9cb79 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 03/35] fix: don't share nodes between consumers needing
 different chunk orders

Jointly evaluating statistics over different axes of one array (or an array
and its statistics) shared a single producer, whose chunk order suited only
the first consumer; the others silently computed wrong values.
---
 biggus/_init.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index d34f4c9..2d7c650 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -396,10 +396,14 @@ class AllThreadedEngine(Engine):
             return chunking
 
         def _make_node(self, array, iteration_order, masked):
-            cache_key = id(array)
+            slices, streamed = self._chunking(array, masked)
+            # A node can be shared only by consumers which need its Chunks
+            # in the same order.
+            chunk_order = tuple(i for i in iteration_order
+                                if len(slices[i]) > 1)
+            cache_key = (id(array), chunk_order)
             node = self._node_cache.get(cache_key, None)
             if node is None:
-                _, streamed = self._chunking(array, masked)
                 if streamed:
                     node = StreamsHandlerNode(array,
                                               array.streams_handler(masked))
-- 
2.43.0


From d0580227b430f3068f0e1b900d7e126652405a3b Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 04/35] fix: masked sum of data without a mask

The mask of such data is the scalar nomask, which can't be reduced along an
axis.
---
 biggus/_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 2d7c650..f6bd687 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2477,7 +2477,7 @@ class _SumMaskedStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.mask &= np.all(data.mask, axis=self.axis)
+        self.mask &= np.all(np.ma.getmaskarray(data), axis=self.axis)
         self.running_total += np.sum(data.filled(0), axis=self.axis)
 
 
-- 
2.43.0


From 0614068e61abfef8e08b860afb3f7befd5b8d362 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 05/35] fix: accumulate means in a floating point dtype

The running totals and counts had the dtype of the data, so the mean of
e.g. 8-bit integers silently overflowed and the mean of booleans, or of an
entirely masked line of integers, raised an error.
---
 biggus/_init.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index f6bd687..d902e42 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2490,8 +2490,9 @@ class _MeanStreamsHandler(_AggregationStreamsHandler):
         super(_MeanStreamsHandler, self).__init__(array, axis)
 
     def bootstrap(self, processed_chunk_shape):
-        self.running_total = np.zeros(processed_chunk_shape,
-                                      dtype=self.array.dtype)
+        # NB. The dtype of the data might not be able to hold the total.
+        dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        self.running_total = np.zeros(processed_chunk_shape, dtype=dtype)
 
     def finalise(self):
         array = self.running_total / self.array.shape[self.axis]
@@ -2512,9 +2513,12 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
 
     def bootstrap(self, processed_chunk_shape):
         shape = processed_chunk_shape
-        self.running_count = np.zeros(shape, dtype=self.array.dtype)
-        self.running_masked_count = np.zeros(shape, dtype=self.array.dtype)
-        self.running_total = np.zeros(shape, dtype=self.array.dtype)
+        # NB. The dtype of the data might not be able to hold the total
+        # or the counts.
+        dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        self.running_count = np.zeros(shape, dtype=int)
+        self.running_masked_count = np.zeros(shape, dtype=int)
+        self.running_total = np.zeros(shape, dtype=dtype)
 
     def finalise(self):
         # Avoid any runtime-warning for divide by zero.
-- 
2.43.0


From f41a77eb7f1cfc59152c47246b0f39aeb842a1e3 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 06/35] fix: make elementwise results arrays of the advertised
 dtype

Evaluating an elementwise operation directly could return a NumPy scalar, or
an array of another dtype than the lazy array (and its evaluation by an
engine) has, e.g. when adding a Python int to an int32 array.
---
 biggus/_init.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index d902e42..6f871fd 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3084,7 +3084,8 @@ class _Elementwise(ComputedArray):
     def ndarray(self):
         np_operands = ndarrays(self.sources)
         result = self._numpy_op(*np_operands)
-        return result
+        # Promote array-scalars, and stick to the advertised dtype.
+        return np.asarray(result, dtype=self.dtype)
 
     def masked_array(self):
         if self._ma_op is None:
@@ -3092,7 +3093,8 @@ class _Elementwise(ComputedArray):
                             ''.format(self._numpy_op.__name__))
         ma_operands = masked_arrays(self.sources)
         result = self._ma_op(*ma_operands)
-        return result
+        # Promote array-scalars, and stick to the advertised dtype.
+        return np.ma.asarray(result, dtype=self.dtype)
 
     def streams_handler(self, masked):
         if masked:
-- 
2.43.0


From b3fea1184911caa819c619284b711a4c5b8532f5 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 07/35] fix: don't leave nodes blocked when a consumer fails

A consumer which failed (or received an abort signal) stopped emptying its
input queues, so its producers blocked for ever. That leaked threads holding
on to data, and never returned to the caller if a producer also served
another requested result.
---
 biggus/_init.py | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 6f871fd..a092a30 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -93,6 +93,25 @@ QUEUE_FINISHED = None
 QUEUE_ABORT = Exception
 
 
+class _InputQueue(queue.Queue):
+    """
+    A limited-size queue of Chunks on their way to a ConsumerNode.
+
+    """
+    closed = False
+
+    def close(self):
+        """Discard the current and all future content."""
+        with self.mutex:
+            self.closed = True
+            self.queue.clear()
+            self.not_full.notify_all()
+
+    def _put(self, item):
+        if not self.closed:
+            queue.Queue._put(self, item)
+
+
 class Node(six.with_metaclass(ABCMeta, object)):
     """A node of an expression evaluation graph."""
 
@@ -123,6 +142,11 @@ class Node(six.with_metaclass(ABCMeta, object)):
             for queue in self.output_queues:
                 queue.put(chunk)
 
+    def wanted(self):
+        """Return whether anybody is still interested in any output."""
+        return (not self.output_queues or
+                any(not queue.closed for queue in self.output_queues))
+
     @abstractmethod
     def run(self):
         pass
@@ -196,6 +220,8 @@ class ProducerNode(Node):
                     data = self.array[key].ndarray()
                 output_chunk = Chunk(key, data)
                 self.output(output_chunk)
+                if not self.wanted():
+                    break
         except:
             self.abort()
             raise
@@ -223,11 +249,11 @@ class ConsumerNode(Node):
         """
         Set the given nodes as inputs for this node.
 
-        Creates a limited-size queue.Queue for each input node and
-        registers each queue as an output of its corresponding node.
+        Creates a limited-size queue for each input node and registers
+        each queue as an output of its corresponding node.
 
         """
-        self.input_queues = [queue.Queue(maxsize=3) for _ in input_nodes]
+        self.input_queues = [_InputQueue(maxsize=3) for _ in input_nodes]
         for input_node, input_queue in zip(input_nodes, self.input_queues):
             input_node.add_output_queue(input_queue)
 
@@ -267,6 +293,8 @@ class ConsumerNode(Node):
                 if any(chunk is QUEUE_FINISHED for chunk in input_chunks):
                     break
                 self.output(self.process_chunks(input_chunks))
+                if not self.wanted():
+                    return
             # Finalise the final chunk (process_chunks does this for all
             # but the last chunk).
             self.output(self.finalise())
@@ -276,6 +304,10 @@ class ConsumerNode(Node):
         else:
             for queue in self.output_queues:
                 queue.put(QUEUE_FINISHED)
+        finally:
+            # Don't block the input nodes with chunks nobody wants.
+            for queue in self.input_queues:
+                queue.close()
 
 
 class StreamsHandlerNode(ConsumerNode):
-- 
2.43.0


From 196daef4bb2af60f570fcb2ac794270e31a09ff3 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 08/35] fix: don't leave threads behind when an evaluation
 can't start

The result threads were started before the rest of the expression graph had
been built. If that failed, or a thread couldn't be started, those already
started waited for ever.
---
 biggus/_init.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index a092a30..169b0b6 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -393,7 +393,7 @@ class AllThreadedEngine(Engine):
             """
             self.arrays = arrays
             self.indices = indices
-            self._node_cache = {}
+            self._node_cache = collections.OrderedDict()
             self._chunking_cache = {}
 
         def __repr__(self):
@@ -467,18 +467,28 @@ class AllThreadedEngine(Engine):
             """
             # Construct nodes starting from the producers.
             result_nodes = []
-            result_threads = []
             for array in self.arrays:
                 iteration_order = list(range(array.ndim))
                 node = self._make_node(array, iteration_order, masked)
                 result_node = NdarrayNode(array, masked)
                 result_node.add_input_nodes([node])
-                result_threads.append(result_node.thread())
                 result_nodes.append(result_node)
 
-            # Start up all the producer/computation threads.
-            for node in six.itervalues(self._node_cache):
-                node.thread()
+            # Start up the threads, the consumers before their producers.
+            nodes = list(six.itervalues(self._node_cache))
+            nodes = result_nodes + nodes[::-1]
+            threads = []
+            try:
+                for node in nodes:
+                    threads.append(node.thread())
+            except:
+                # Stop the threads which are running.
+                for node in nodes[len(threads):]:
+                    node.abort()
+                for thread in threads:
+                    thread.join()
+                raise
+            result_threads = threads[:len(result_nodes)]
 
             # Wait for the result threads to finish.
             for thread in result_threads:
-- 
2.43.0


From 36bab7bafe1374502c28b1a8f332a3d905ffb33f Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 09/35] fix: keep the fill value and dtype of masked data

Indexing a masked source with several tuples loses its fill value, and
indexing it with scalars gives the float64 masked constant, or data which
wasn't filled. So filled results depended on how the data was sliced, and
masked integer scalars turned into floats.
---
 biggus/_init.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 169b0b6..50c14a2 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1551,10 +1551,11 @@ class _ArrayAdapter(Array):
         # We want the shape of the result to match the shape of the
         # Array, so where we've ended up with an array-scalar,
         # "inflate" it back to a 0-dimensional array.
-        if array.ndim == 0:
-            array = np.array(array)
         if ma.isMaskedArray(array):
-            array = array.filled()
+            # NB. Some ways of indexing don't preserve the fill value.
+            array = array.filled(getattr(self.concrete, 'fill_value', None))
+        if array.ndim == 0:
+            array = np.array(array, dtype=self.dtype)
         return array
 
     def masked_array(self):
@@ -1562,7 +1563,11 @@ class _ArrayAdapter(Array):
         # We want the shape of the result to match the shape of the
         # Array, so where we've ended up with an array-scalar,
         # "inflate" it back to a 0-dimensional array.
-        if array.ndim == 0 or not ma.isMaskedArray(array):
+        if array.ndim == 0:
+            # NB. The `masked` constant has its own dtype.
+            array = ma.MaskedArray(array, dtype=self.dtype, copy=True,
+                                   fill_value=self.fill_value)
+        elif not ma.isMaskedArray(array):
             array = ma.MaskedArray(array, fill_value=self.fill_value)
         return array
 
-- 
2.43.0


From 00045d8f79abb740ce2415ccf38b24c0a3545987 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 10/35] fix: std and var of chunks with a single element along
 the axis

The second chunk was taken for the first one, and restarted the calculation.
---
 biggus/_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 50c14a2..0ad27a0 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2605,6 +2605,7 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
 
     def bootstrap(self, processed_chunk_shape):
         self.k = 1
+        self.a = None
         self._dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
         self.q = np.zeros(processed_chunk_shape, dtype=self._dtype)
 
@@ -2620,7 +2621,7 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
     def process_data(self, data):
         data = np.rollaxis(data, self.axis).astype(self._dtype)
 
-        if self.k == 1:
+        if self.a is None:
             self.a = data[0]
             data = data[1:]
 
-- 
2.43.0


From ec0a657710b23ca2c0072b4957670682a41c8d9f Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 11/35] fix: order of the tiles of a mosaic indexed with a
 negative step

The tiles are already selected in the requested order.
---
 biggus/_init.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 0ad27a0..8fb0ee2 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2119,9 +2119,6 @@ class LinearMosaic(Array):
                         tile_slice[axis] = axis_indices
 
                     tiles.append(tile[tuple(tile_slice)])
-                if isinstance(axis_key, slice) and \
-                        axis_key.step is not None and axis_key.step < 0:
-                    tiles.reverse()
                 # Adjust the axis of the new mosaic to account for any
                 # scalar keys prior to our current mosaic axis.
                 new_axis = axis
-- 
2.43.0


From 850f875c6d1f22709c599dab0ea7499fbf72bbfd Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 12/35] fix: negative indices along the axis of a mosaic

They were looked up in the first tile only, as if they counted from its end.
---
 biggus/_init.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 8fb0ee2..b6da5b2 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2080,12 +2080,22 @@ class LinearMosaic(Array):
             offsets = np.cumsum([0] + axis_lengths[:-1])
             splits = offsets - 1
             axis_key = keys[axis]
+            size = self.shape[axis]
+
+            def normalise(index):
+                # Count negative indices from the end.
+                if not -size <= index < size:
+                    raise IndexError('index {} is out of bounds for axis {} '
+                                     'with size {}'.format(index, axis, size))
+                return index if index >= 0 else index + size
+
             if _is_scalar(axis_key):
+                axis_key = normalise(axis_key)
                 # Find the single relevant tile
                 tile_index = np.searchsorted(splits, axis_key) - 1
                 tile = self._tiles[tile_index]
                 tile_indices = list(keys)
-                tile_indices[axis] -= offsets[tile_index]
+                tile_indices[axis] = axis_key - offsets[tile_index]
                 result = tile[tuple(tile_indices)]
             elif isinstance(axis_key, (slice, collections.Iterable)) and \
                     not isinstance(axis_key, six.string_types):
@@ -2093,10 +2103,9 @@ class LinearMosaic(Array):
                 # NB. If the stride is large enough, this might not be a
                 # contiguous subset of self._tiles.
                 if isinstance(axis_key, slice):
-                    size = self.shape[axis]
                     all_axis_indices = range(*axis_key.indices(size))
                 else:
-                    all_axis_indices = tuple(axis_key)
+                    all_axis_indices = tuple(map(normalise, axis_key))
                 tile_indices = np.searchsorted(splits, all_axis_indices) - 1
                 pairs = zip(all_axis_indices, tile_indices)
                 i = itertools.groupby(pairs, lambda axis_tile: axis_tile[1])
-- 
2.43.0


From 219a58d67eacbab010fd17069bc2f9a6e0e15de9 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 13/35] fix: slicing mosaics of tiles without support for index
 arrays

A slice of a mosaic was passed on to its tiles as arrays of indices, which
e.g. broadcast arrays can't handle.
---
 biggus/_init.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index b6da5b2..6f9770a 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2116,7 +2116,15 @@ class LinearMosaic(Array):
                     tile = self._tiles[tile_index]
                     axis_indices = np.array(axis_indices)
                     axis_indices -= offsets[tile_index]
-                    if len(axis_indices) == 1:
+                    if len(axis_indices) > 1 and isinstance(axis_key, slice):
+                        # Not all kinds of tile support arrays of indices.
+                        start, second = axis_indices[:2]
+                        step = second - start
+                        stop = axis_indices[-1] + step
+                        tile_slice[axis] = slice(start,
+                                                 stop if stop >= 0 else None,
+                                                 step)
+                    elif len(axis_indices) == 1:
                         # Even if we only need one value from this tile
                         # we must preserve the axis dimension by using
                         # a slice instead of a scalar.
-- 
2.43.0


From f697d549bf12f27b6f09a42ad0a88196d867d498 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 14/35] fix: keep the dtype of an elementwise operation when
 it's indexed

Indexing e.g. the sum of a float32 array and a Python scalar gave a float64
array, as the operand was no longer recognised as a scalar.
---
 biggus/_init.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 6f9770a..72d5ffb 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3141,6 +3141,8 @@ class _Elementwise(ComputedArray):
         else:
             result = _Elementwise(self._array1[keys], self._array2[keys],
                                   self._numpy_op, self._ma_op)
+        # The type promotion of scalar operands isn't repeated.
+        result._dtype = self._dtype
         return result
 
     def ndarray(self):
-- 
2.43.0


From 9cf960bcfe371f59c09ef40312d49df5d621f6e3 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 15/35] fix: make the tasks of a dask graph repeatable

A task shared its streams handler, and so the state of its calculation, with
any other execution of the task: executing it twice (e.g. evaluating a graph
again) doubled sums, for example.
---
 biggus/experimental/dask_engine.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/biggus/experimental/dask_engine.py b/biggus/experimental/dask_engine.py
index dcc0f1b..c3ad073 100644
--- a/biggus/experimental/dask_engine.py
+++ b/biggus/experimental/dask_engine.py
@@ -49,6 +49,7 @@ try:
     from itertools import izip_longest as zip_longest
 except ImportError:
     from itertools import zip_longest
+import copy
 import uuid
 
 import biggus
@@ -144,9 +145,12 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
         def produce_chunks(produced_keys, *all_chunks):
             all_chunks = list(_groups_of_size(all_chunks, n_sources))
             process_result = None
+            # A task may be executed repeatedly, or more than once at the
+            # same time, so it mustn't change the original handler.
+            task_handler = copy.copy(handler)
             for chunks in all_chunks:
-                process_result = handler.process_chunks(chunks)
-            result = handler.finalise()
+                process_result = task_handler.process_chunks(chunks)
+            result = task_handler.finalise()
             if result is None:
                 if process_result is None:
                     raise RuntimeError('No result to process.')
-- 
2.43.0


From 7c614042f9d3dc84a52ef6c6a91818d280c0c337 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 16/35] fix: combine differently chunked sources in dask graphs

---
 biggus/experimental/dask_engine.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/biggus/experimental/dask_engine.py b/biggus/experimental/dask_engine.py
index c3ad073..c55c69e 100644
--- a/biggus/experimental/dask_engine.py
+++ b/biggus/experimental/dask_engine.py
@@ -220,8 +220,8 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
             t_keys = tuple(slice(*slice_tuple) for slice_tuple in slice_group)
 
             all_chunks = []
-            for source_keys, source_chunks_by_key in zip(sources_keys_group,
-                                                         sources_chunks):
+            for input_array, source_keys, source_chunks_by_key in zip(
+                    array.sources, sources_keys_group, sources_chunks):
                 dependencies = tuple(
                         the_id
                         for keys in source_keys
@@ -241,10 +241,10 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
                 # TODO: Fix slice equality to deal with 0 and None etc.
                 if not all(t_keys == normalize_keys(keys, array.shape)
                            for keys in source_keys):
-                    combined = self.collect(array[t_keys], masked, chunk=True)
+                    combined = self.combine(input_array, t_keys, masked)
                     new_task = (combined, ) + dependencies
                     new_id = ('chunk shape: {}\n\n{}'
-                              ''.format(array[t_keys].shape, uuid.uuid()))
+                              ''.format(array[t_keys].shape, uuid.uuid4()))
                     dsk_graph[new_id] = new_task
                     dependencies = (new_id, )
 
@@ -376,6 +376,28 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
             gather.__name__ = name
         return gather
 
+    @staticmethod
+    def combine(array, keys, masked):
+        """
+        Return a function which combines Chunks of the array into the single
+        Chunk with the given keys.
+
+        """
+        def gather(*chunks):
+            result_node = biggus._init.NdarrayNode(array[keys], masked)
+            for chunk in chunks:
+                # Compute the position of this chunk within the combination.
+                relative_keys = []
+                for key, chunk_key, size in zip(keys, chunk.keys,
+                                                array.shape):
+                    offset = key.indices(size)[0]
+                    start, stop, _ = chunk_key.indices(size)
+                    relative_keys.append(slice(start - offset, stop - offset))
+                result_node.process_chunks(
+                    [biggus._init.Chunk(tuple(relative_keys), chunk.data)])
+            return biggus._init.Chunk(keys, result_node.result)
+        return gather
+
     def dask(self, masked=False):
         # Construct nodes starting from the producers.
         dsk_graph = {}
-- 
2.43.0


From e4b4c13725640bc9e27e955af4f210a473068cba Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 17/35] fix: don't read a whole data source to slice it twice

---
 biggus/_init.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 72d5ffb..f39d4ed 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1496,6 +1496,24 @@ class _ArrayAdapter(Array):
             raise TypeError('invalid key {!r}'.format(new_key))
         return result_key
 
+    @staticmethod
+    def _remap_new_slice(start, stop, stride, new_key):
+        """
+        Return the slice which represents applying the slice `new_key` to
+        the elements selected by `range(start, stop, stride)`.
+
+        """
+        size = len(range(start, stop, stride))
+        new_start, new_stop, new_stride = new_key.indices(size)
+        size = len(range(new_start, new_stop, new_stride))
+        if size == 0:
+            return slice(0, 0, 1)
+        start += new_start * stride
+        stride *= new_stride
+        stop = start + size * stride
+        # NB. A negative stop would be relative to the end.
+        return slice(start, None if stop < 0 else stop, stride)
+
     def _getitem_full_keys(self, keys):
         result_keys = []
         shape = list(self.concrete.shape)
@@ -1517,9 +1535,15 @@ class _ArrayAdapter(Array):
                 # A slice src_key means we have to apply the new key
                 # to the sliced version of the concrete dimension.
                 start, stop, stride = src_key.indices(src_size)
-                indices = tuple(range(start, stop, stride))
                 new_key = new_keys.pop(0)
-                result_key = self._remap_new_key(indices, new_key, axis)
+                if isinstance(new_key, slice):
+                    # Stay with slices, as they can always be combined
+                    # into a single request to the data source.
+                    result_key = self._remap_new_slice(start, stop, stride,
+                                                       new_key)
+                else:
+                    indices = tuple(range(start, stop, stride))
+                    result_key = self._remap_new_key(indices, new_key, axis)
             else:
                 new_key = new_keys.pop(0)
                 result_key = self._remap_new_key(src_key, new_key, axis)
-- 
2.43.0


From 68ea3143e3852c89b73a07c90eb7536d3455f430 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 18/35] fix: broadcasting arrays which are already broadcast
 along leading axes

---
 biggus/_init.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index f39d4ed..e5a5040 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1056,13 +1056,35 @@ class BroadcastArray(ArrayContainer):
         shape, bcast_kwargs1, bcast_kwargs2 = (
             cls._compute_broadcast_kwargs(array1.shape, array2.shape))
         if any(bcast_kwargs1.values()):
-            array1 = cls(array1, **bcast_kwargs1)
+            array1 = cls._broadcast_array(array1, **bcast_kwargs1)
 
         if any(bcast_kwargs2.values()):
-            array2 = cls(array2, **bcast_kwargs2)
+            array2 = cls._broadcast_array(array2, **bcast_kwargs2)
 
         return array1, array2
 
+    @classmethod
+    def _broadcast_array(cls, array, broadcast, leading_shape):
+        """
+        Broadcast an array, where the axes to broadcast refer to the shape of
+        the given array even if that is already a broadcast of another.
+
+        """
+        if isinstance(array, BroadcastArray):
+            existing_leading_shape = list(array._leading_shape)
+            offset = len(existing_leading_shape)
+            inner_broadcast = array._broadcast_dict.copy()
+            for axis, length in broadcast.items():
+                if axis < offset:
+                    existing_leading_shape[axis] = length
+                else:
+                    inner_broadcast[axis - offset] = length
+            array = array.array
+            broadcast = inner_broadcast
+            leading_shape = tuple(leading_shape) + tuple(
+                existing_leading_shape)
+        return cls(array, broadcast, leading_shape)
+
     @staticmethod
     def _compute_broadcast_shape(shape1, shape2):
         """
-- 
2.43.0


From 9b77da28fb400adeb34507e5bc77869a8df6dbbb Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 19/35] fix: masked mean over everything masked with a
 tolerance

---
 biggus/_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index e5a5040..6ee1e00 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2634,7 +2634,8 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
         array = np.ma.array(self.running_total, mask=mask) / denominator
         # Promote array-scalar to 0-dimensional array.
         if array.ndim == 0:
-            array = np.ma.array(array)
+            # NB. The `masked` constant is read-only.
+            array = np.ma.array(array, copy=True)
         # Apply masked/missing data threshold (mdtol).
         if self._mdtol < 1:
             mask_update = np.true_divide(self.running_masked_count,
-- 
2.43.0


From 7bdeaa397e80007c48e62d61188b22e6a0156a80 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 20/35] fix: masked sum of counts

---
 biggus/_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 6ee1e00..2877269 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2585,7 +2585,7 @@ class _SumMaskedStreamsHandler(_AggregationStreamsHandler):
 
     def process_data(self, data):
         self.mask &= np.all(np.ma.getmaskarray(data), axis=self.axis)
-        self.running_total += np.sum(data.filled(0), axis=self.axis)
+        self.running_total += np.sum(np.ma.filled(data, 0), axis=self.axis)
 
 
 class _MeanStreamsHandler(_AggregationStreamsHandler):
-- 
2.43.0


From 65439f8a758ca00f5fd8985967650c85de8d9cdf Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 21/35] fix: 0-dimensional results of arrays with new axes

---
 biggus/_init.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 2877269..6cbafb5 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -930,11 +930,13 @@ class NewAxesArray(ArrayContainer):
 
     def ndarray(self):
         array = super(NewAxesArray, self).ndarray()
-        return array.__getitem__(self._newaxis_keys())
+        # NB. The ellipsis ensures the result is an array.
+        return array.__getitem__(self._newaxis_keys() + (Ellipsis,))
 
     def masked_array(self):
         array = super(NewAxesArray, self).masked_array()
-        return array.__getitem__(self._newaxis_keys())
+        # NB. The ellipsis ensures the result is an array.
+        return array.__getitem__(self._newaxis_keys() + (Ellipsis,))
 
 
 @export
-- 
2.43.0


From 40ab78ce261c664db2dddc18103cacff87ac511b Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 22/35] fix: indexing with an array and an integer

---
 biggus/_init.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 6cbafb5..6c314ed 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1633,14 +1633,15 @@ class NumpyArrayAdapter(_ArrayAdapter):
 
     """
     def _apply_keys(self):
-        # If we have more than one tuple as a key, then NumPy does
-        # "fancy" indexing, instead of "column-based" indexing, so we
-        # need to use multiple indexing operations to get the right
-        # result.
+        # If we have more than one tuple as a key, or a tuple and a scalar,
+        # then NumPy does "fancy" indexing, instead of "column-based"
+        # indexing, so we need to use multiple indexing operations to get
+        # the right result.
         keys = self._keys
         tuple_keys = [(i, key) for i, key in enumerate(keys)
-                      if isinstance(key, tuple)]
-        if len(tuple_keys) > 1:
+                      if isinstance(key, (tuple, np.ndarray))]
+        if len(tuple_keys) > 1 or (tuple_keys and
+                                   any(_is_scalar(key) for key in keys)):
             # Since we're potentially dealing with very large datasets
             # we want to cut down the array as much as possible in the
             # first iteration.
@@ -1668,6 +1669,8 @@ class NumpyArrayAdapter(_ArrayAdapter):
                 array = self.concrete[...]
             # ... and then do each tuple in turn.
             for i, key in tuple_keys:
+                if isinstance(key, np.ndarray):
+                    key = np.nonzero(key)[0]
                 array = np.take(array, key, axis=dimensions[i])
         else:
             array = self.concrete.__getitem__(keys)
-- 
2.43.0


From 1e9e06eeef603e3f67384cb7c4448603f672ab33 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 23/35] fix: indexing the result of indexing with a boolean
 array

---
 biggus/_init.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 6c314ed..014e0a3 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1570,6 +1570,9 @@ class _ArrayAdapter(Array):
                     result_key = self._remap_new_key(indices, new_key, axis)
             else:
                 new_key = new_keys.pop(0)
+                if isinstance(src_key, np.ndarray):
+                    # The elements selected by a boolean array.
+                    src_key = tuple(np.nonzero(src_key)[0])
                 result_key = self._remap_new_key(src_key, new_key, axis)
             result_keys.append(result_key)
             axis += 1
-- 
2.43.0


From 6b320d98cc68211ac7209ab99e1ecc1dbedb48e8 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 24/35] fix: indexing new axes together with integers

---
 biggus/_init.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 014e0a3..0626aa7 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -879,6 +879,7 @@ class NewAxesArray(ArrayContainer):
         contained_array_keys = []
         existing_array_axis = 0
         broadcast_dict = {}
+        n_axes_removed = 0
 
         for key_index, key in enumerate(keys):
             if key is np.newaxis:
@@ -890,6 +891,7 @@ class NewAxesArray(ArrayContainer):
                 if _is_scalar(key):
                     if -1 <= key < 1:
                         new_axes[existing_array_axis] -= 1
+                        n_axes_removed += 1
                     else:
                         raise IndexError('index {} is out of bounds for axis '
                                          '{} with size 1'.format(key,
@@ -897,14 +899,14 @@ class NewAxesArray(ArrayContainer):
                 elif isinstance(key, slice):
                     new_size = len(range(*key.indices(1)))
                     if new_size != 1:
-                        broadcast_dict[key_index] = new_size
+                        broadcast_dict[key_index - n_axes_removed] = new_size
                 elif isinstance(key, tuple):
                     for index in key:
                         if not -1 <= index < 1:
                             raise IndexError('index {} is out of bounds for '
                                              'axis {} with size 1'
                                              ''.format(key, key_index))
-                    broadcast_dict[key_index] = len(key)
+                    broadcast_dict[key_index - n_axes_removed] = len(key)
                 else:
                     raise NotImplementedError('NewAxesArray indexing not yet '
                                               'supported for {} keys.'
@@ -916,6 +918,7 @@ class NewAxesArray(ArrayContainer):
                     # removed, so we can combine the new_axes to the left
                     # and right of this axes into a single value.
                     axes_to_combine.append(existing_array_axis)
+                    n_axes_removed += 1
                 contained_array_keys.append(key)
                 existing_array_axis += 1
 
-- 
2.43.0


From 01699103a3407b7ccb9ee43c3dab7f16ce967b38 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 25/35] fix: don't give away the masked constant as a result

---
 biggus/_init.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 0626aa7..e941f17 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3216,7 +3216,9 @@ class _Elementwise(ComputedArray):
         ma_operands = masked_arrays(self.sources)
         result = self._ma_op(*ma_operands)
         # Promote array-scalars, and stick to the advertised dtype.
-        return np.ma.asarray(result, dtype=self.dtype)
+        # NB. The `masked` constant is read-only, and shared by everyone.
+        return np.ma.array(result, dtype=self.dtype,
+                           copy=result is np.ma.masked)
 
     def streams_handler(self, masked):
         if masked:
-- 
2.43.0


From 50dfebb246de52f3fe6b61f21c94347d0571c714 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 26/35] fix: dtype of a masked min/max of everything masked

---
 biggus/_init.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index e941f17..27f9a1a 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2507,7 +2507,8 @@ class _MinMaskedStreamsHandler(_AggregationStreamsHandler):
         array = self.result
         # Promote array-scalar to 0-dimensional array.
         if array.ndim == 0:
-            array = np.ma.array(array)
+            # NB. The `masked` constant has its own dtype.
+            array = np.ma.array(array, dtype=self.array.dtype)
         chunk = Chunk(self.current_keys, array)
         return chunk
 
@@ -2548,7 +2549,8 @@ class _MaxMaskedStreamsHandler(_AggregationStreamsHandler):
         array = self.result
         # Promote array-scalar to 0-dimensional array.
         if array.ndim == 0:
-            array = np.ma.array(array)
+            # NB. The `masked` constant has its own dtype.
+            array = np.ma.array(array, dtype=self.array.dtype)
         chunk = Chunk(self.current_keys, array)
         return chunk
 
-- 
2.43.0


From 1cac7d1a908e6a1127ec5c5e5f60c067e406c9c7 Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 27/35] fix: casts of casts

---
 biggus/_init.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 27f9a1a..d458d9d 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1242,9 +1242,6 @@ class AsDataTypeArray(ArrayContainer):
     def dtype(self):
         return self._dtype
 
-    def astype(self, dtype):
-        return type(self)(self.array, dtype)
-
     def __getitem__(self, keys):
         # Apply the indexing to the contained array, then instantly
         # re-apply the astype.
-- 
2.43.0


From a33135c27e38e9fd687f3aacb577bb94a95c241b Mon Sep 17 00:00:00 2001
From: dev <dev@x>
Date: Fri, 20 Nov 2026 01:39:55 +0000
Subject: [PATCH 28/35] fix: keep the advertised dtype in elementwise chunks

The chunks of an elementwise operation with a Python scalar could have another
dtype than the lazy array: adding up an array of small unsigned integers
multiplied by a Python int failed.
---
 biggus/_init.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index d458d9d..e0b627f 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3092,9 +3092,10 @@ def var(a, axis=None, ddof=0):
 
 
 class _ElementwiseStreamsHandler(_StreamsHandler):
-    def __init__(self, sources, operator):
+    def __init__(self, sources, operator, dtype):
         self.sources = sources
         self.operator = operator
+        self.dtype = dtype
 
     def finalise(self):
         pass
@@ -3104,6 +3105,9 @@ class _ElementwiseStreamsHandler(_StreamsHandler):
 
     def process_chunks(self, chunks):
         array = self.operator(*[chunk.data for chunk in chunks])
+        # Stick to the advertised dtype, which the consumers rely on.
+        if array.dtype != self.dtype and array is not np.ma.masked:
+            array = array.astype(self.dtype)
         chunk = Chunk(chunks[0].keys, array)
         return chunk
 
@@ -3227,7 +3231,7 @@ class _Elementwise(ComputedArray):
             operator = self._ma_op
         else:
             operator = self._numpy_op
-        return _ElementwiseStreamsHandler(self.sources, operator)
+        return _ElementwiseStreamsHandler(self.sources, operator, self.dtype)
 
 
 def _unary_fn_wrapper(name, function_to_wrap, masked_equivalent=None,
-- 
2.43.0


From 7e0bcdcf945ef762c09047ecd9814c4dcdbd7580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:18 +0000
Subject: [PATCH 29/35] fix: the mean of large integers doesn't depend on the
 chunks

The total of each chunk was computed with the dtype of the data, so it
could wrap around before it was added to the floating-point total.
---
 biggus/_init.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index e0b627f..b5c7d53 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2620,7 +2620,9 @@ class _MeanStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.running_total += np.sum(data, axis=self.axis)
+        # NB. The dtype of the data might not be able to hold the total.
+        self.running_total += np.sum(data, axis=self.axis,
+                                     dtype=self.running_total.dtype)
 
 
 class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
@@ -2659,7 +2661,9 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
     def process_data(self, data):
         self.running_count += np.ma.count(data, axis=self.axis)
         self.running_masked_count += np.ma.count_masked(data, axis=self.axis)
-        self.running_total += np.sum(data, axis=self.axis)
+        # NB. The dtype of the data might not be able to hold the total.
+        self.running_total += np.sum(data, axis=self.axis,
+                                     dtype=self.running_total.dtype)
 
 
 class _StdStreamsHandler(_AggregationStreamsHandler):
-- 
2.43.0


From 83ea1f4766d38a793d2a1a38213bb173e551eb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:54 +0000
Subject: [PATCH 30/35] fix: std and var of data which aren't finite are not a
 number, as in NumPy

A single NaN had no deviation at all, and an infinity an infinite one if
it came last.
---
 biggus/_init.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index b5c7d53..410747c 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2686,6 +2686,8 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
 
     def finalise(self):
         self.q /= (self.k - self.ddof)
+        # The deviation from a mean which isn't finite is not a number.
+        self.q[~np.isfinite(self.a)] = np.nan
         array = np.sqrt(self.q)
         # Promote array-scalar to 0-dimensional array.
         if array.ndim == 0:
-- 
2.43.0


From 1572639301839841241cc21b0cd538ea3dee9082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:14 +0000
Subject: [PATCH 31/35] fix: mean, std and var of half floats don't overflow

Their totals and counts were computed as half floats: NumPy computes the
mean with single precision.
---
 biggus/_init.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 410747c..6502f81 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2609,6 +2609,7 @@ class _MeanStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
         # NB. The dtype of the data might not be able to hold the total.
         dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        dtype = np.promote_types(dtype, np.float32)
         self.running_total = np.zeros(processed_chunk_shape, dtype=dtype)
 
     def finalise(self):
@@ -2635,6 +2636,7 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
         # NB. The dtype of the data might not be able to hold the total
         # or the counts.
         dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        dtype = np.promote_types(dtype, np.float32)
         self.running_count = np.zeros(shape, dtype=int)
         self.running_masked_count = np.zeros(shape, dtype=int)
         self.running_total = np.zeros(shape, dtype=dtype)
@@ -2681,7 +2683,8 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
         self.k = 1
         self.a = None
-        self._dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        self._dtype = np.promote_types(dtype, np.float32)
         self.q = np.zeros(processed_chunk_shape, dtype=self._dtype)
 
     def finalise(self):
@@ -2732,6 +2735,7 @@ class _StdMaskedStreamsHandler(_AggregationStreamsHandler):
 
     def bootstrap(self, processed_chunk_shape):
         dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        dtype = np.promote_types(dtype, np.float32)
         self.a = np.zeros(processed_chunk_shape, dtype=dtype).flatten()
         self.q = np.zeros(processed_chunk_shape, dtype=dtype).flatten()
         self.running_count = np.zeros(processed_chunk_shape,
-- 
2.43.0


From 0522f2892f58e1f114e90ee8bf87cb28c25b6521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:15 +0000
Subject: [PATCH 32/35] fix: apply Python scalars to unsigned 8-byte integers
 without rounding

---
 biggus/_init.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 6502f81..6454507 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3161,6 +3161,13 @@ class _Elementwise(ComputedArray):
             initial_array2 = array2
 
             # Dual input elementwise
+            if type(array2) is int or type(array2) is float:
+                # Python scalars must not widen the operation beyond the
+                # type which NumPy would have used for it.
+                array2 = np.array(
+                    array2,
+                    dtype=np.result_type(np.ones(1, dtype=array1.dtype),
+                                         array2))
             array2 = ensure_array(array2)
 
             # Broadcast both arrays to the full broadcast shape.
-- 
2.43.0


From e71e684ddba8ae7f854ee9fd277a3905d8211d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:59 +0000
Subject: [PATCH 33/35] fix: give a Python scalar on the left the dtype which
 NumPy gives it

---
 biggus/_init.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 6454507..a585ee0 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3132,6 +3132,7 @@ class _Elementwise(ComputedArray):
 
     """
     def __init__(self, array1, array2, numpy_op, ma_op=None):
+        initial_array1 = array1
         array1 = ensure_array(array1)
 
         expected_n_arrays = None
@@ -3161,14 +3162,16 @@ class _Elementwise(ComputedArray):
             initial_array2 = array2
 
             # Dual input elementwise
+            # Python scalars mustn't widen the operation beyond the type which
+            # NumPy would have used for it.
             if type(array2) is int or type(array2) is float:
-                # Python scalars must not widen the operation beyond the
-                # type which NumPy would have used for it.
-                array2 = np.array(
-                    array2,
-                    dtype=np.result_type(np.ones(1, dtype=array1.dtype),
-                                         array2))
+                array2 = np.array(array2, dtype=np.result_type(
+                    np.ones(1, dtype=array1.dtype), array2))
             array2 = ensure_array(array2)
+            if type(initial_array1) is int or type(initial_array1) is float:
+                array1 = ensure_array(np.array(
+                    initial_array1, dtype=np.result_type(
+                        initial_array1, np.ones(1, dtype=array2.dtype))))
 
             # Broadcast both arrays to the full broadcast shape.
             # TypeError will be raised if not broadcastable.
@@ -3178,6 +3181,10 @@ class _Elementwise(ComputedArray):
             # this is to trap the case where a Python int of float is provided,
             # rather than a numpy int or float.  The type promotion is handled
             # differently, for consistency with numpy (1.8 & 1.9) behaviour.
+            if type(initial_array1) is int or type(initial_array1) is float:
+                first_array = initial_array1
+            else:
+                first_array = np.ones(1, dtype=array1.dtype)
             if type(initial_array2) is int or type(initial_array2) is float:
                 second_array = initial_array2
             else:
@@ -3187,8 +3194,7 @@ class _Elementwise(ComputedArray):
             # dtypes and the operation. Avoid using np.find_common_dtype(),
             # here, as integer division yields a float, whereas standard type
             # coercion rules with find_common_dtype yields an integer.
-            dtype = numpy_op(np.ones(1, dtype=array1.dtype),
-                             second_array).dtype
+            dtype = numpy_op(first_array, second_array).dtype
 
         self._dtype = dtype
         self._array1 = array1
-- 
2.43.0


From 8d8bd491e12ad6ae8ac0e9034e774a58896a2e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:34 +0000
Subject: [PATCH 34/35] fix: keep the mean of time differences working

---
 biggus/_init.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index a585ee0..cc60e0e 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2609,7 +2609,8 @@ class _MeanStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
         # NB. The dtype of the data might not be able to hold the total.
         dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
-        dtype = np.promote_types(dtype, np.float32)
+        if dtype == np.float16:
+            dtype = np.dtype(np.float32)
         self.running_total = np.zeros(processed_chunk_shape, dtype=dtype)
 
     def finalise(self):
@@ -2636,7 +2637,8 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
         # NB. The dtype of the data might not be able to hold the total
         # or the counts.
         dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
-        dtype = np.promote_types(dtype, np.float32)
+        if dtype == np.float16:
+            dtype = np.dtype(np.float32)
         self.running_count = np.zeros(shape, dtype=int)
         self.running_masked_count = np.zeros(shape, dtype=int)
         self.running_total = np.zeros(shape, dtype=dtype)
@@ -2684,7 +2686,9 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
         self.k = 1
         self.a = None
         dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
-        self._dtype = np.promote_types(dtype, np.float32)
+        if dtype == np.float16:
+            dtype = np.dtype(np.float32)
+        self._dtype = dtype
         self.q = np.zeros(processed_chunk_shape, dtype=self._dtype)
 
     def finalise(self):
@@ -2735,7 +2739,8 @@ class _StdMaskedStreamsHandler(_AggregationStreamsHandler):
 
     def bootstrap(self, processed_chunk_shape):
         dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
-        dtype = np.promote_types(dtype, np.float32)
+        if dtype == np.float16:
+            dtype = np.dtype(np.float32)
         self.a = np.zeros(processed_chunk_shape, dtype=dtype).flatten()
         self.q = np.zeros(processed_chunk_shape, dtype=dtype).flatten()
         self.running_count = np.zeros(processed_chunk_shape,
-- 
2.43.0


From d25c4252b1604c7b01a1c3a812df330664043cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:13 +0000
Subject: [PATCH 35/35] fix: keep time differences and plain numbers apart in
 operations

---
 biggus/_init.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index cc60e0e..612416f 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3168,12 +3168,16 @@ class _Elementwise(ComputedArray):
 
             # Dual input elementwise
             # Python scalars mustn't widen the operation beyond the type which
-            # NumPy would have used for it.
-            if type(array2) is int or type(array2) is float:
+            # NumPy would have used for it. (Time differences may be combined
+            # with plain numbers, which are then to stay plain numbers.)
+            if (type(array2) is int or type(array2) is float) and \
+                    array1.dtype.kind in 'biufc':
                 array2 = np.array(array2, dtype=np.result_type(
                     np.ones(1, dtype=array1.dtype), array2))
             array2 = ensure_array(array2)
-            if type(initial_array1) is int or type(initial_array1) is float:
+            if (type(initial_array1) is int or
+                    type(initial_array1) is float) and \
+                    array2.dtype.kind in 'biufc':
                 array1 = ensure_array(np.array(
                     initial_array1, dtype=np.result_type(
                         initial_array1, np.ones(1, dtype=array2.dtype))))
-- 
2.43.0

