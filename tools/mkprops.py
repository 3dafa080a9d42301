import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
I='biggus/_init.py'; D='biggus/experimental/dask_engine.py'; K='biggus/experimental/key_grouper.py'

p('C01','Evaluation equals eager NumPy under every worker schedule and chunk limit',
 'Evaluating a lazy expression built from data sources, constants, stacks, mosaics, indexed / transposed / broadcast / recast / value-masked views, elementwise operations and statistics with the default engine yields an array with the declared shape and dtype and with exactly the values (and, for masked evaluation, the mask) that applying the equivalent NumPy operations eagerly to the same data yields. This holds for every interleaving and relative speed of the worker threads, for slow data sources, and for every chunk-size limit.',
 ['schedules','inputs','configurations'],
 'all expression graphs over the supported operations, all interleavings of the evaluation threads, all source latencies, all values of the chunk-size limit',
 'The tests evaluate a few dozen fixed expressions, nearly all small enough to be one chunk, under whichever thread schedule the OS happens to pick.',
 [I],[('one thread per node, bounded queues, lock-step consumption','Node / ProducerNode / ConsumerNode.run'),('chunk key generation','_all_slices_inner, ProducerNode.chunk_index_gen'),('result assembly by chunk keys','NdarrayNode.process_chunks')],
 [('MAX_CHUNK_SIZE','chunk limit in elements','_init.py module global'),('input_queues/output_queues','edges of the evaluation graph','Node')],
 ['return value of Array.ndarray()/masked_array(), biggus.ndarrays()/masked_arrays()'])
p('C02','Statistics do not depend on how the data are chunked',
 'count, min, max, sum, mean, std and var over any single axis (masked or not, with any missing-data tolerance or ddof) give the same result as the equivalent NumPy statistic over the whole data, wherever the chunk boundaries fall: along the aggregated axis, along other axes, or both. Chunk limit, worker schedule and source latency affect only when partial results are combined, never what the combined result is.',
 ['configurations','inputs','schedules'],
 'all shapes, axes, mask patterns, chunk limits and worker schedules',
 'The unit tests aggregate data that fit in one chunk, so the combination of partial results over chunk boundaries is hardly ever executed.',
 [I],[('running partial results per output chunk','_AggregationStreamsHandler.process_chunks and the Count/Min/Max/Sum/Mean/Std/Var handlers'),('traversal order requested from the inputs','_AggregationStreamsHandler.input_iteration_order')],
 [('current_keys','output chunk being accumulated','_AggregationStreamsHandler')],['results of biggus.count/min/max/sum/mean/std/var'])
p('C03','Joint evaluation equals evaluating each expression on its own',
 'Evaluating several expressions in one call returns one result per expression, in request order, each identical to the result of evaluating that expression alone. This holds however the expressions share sub-expressions or data sources (including the same expression requested twice, an expression together with its own statistics, and statistics over different axes of one source), and for every schedule and chunk limit.',
 ['inputs','schedules','configurations'],
 'all sets of expressions with any sharing, all schedules, all chunk limits',
 'Tests of joint evaluation use one-chunk data and pairs over a common axis.',
 [I],[('node sharing between expressions','AllThreadedEngine.Group._make_node'),('result positions','AllThreadedEngine._evaluate, Group.evaluate')],
 [('_node_cache','array to node map of one evaluation','AllThreadedEngine.Group')],['biggus.ndarrays([...]), biggus.masked_arrays([...])'])
p('C04','A failure anywhere in an evaluation reaches the caller, never a wrong result',
 'If a data source, an operation, a memory allocation or the creation of a worker fails at any point during an evaluation, the evaluating call raises an exception. It never returns a partial, stale or incorrect array, and if the call does return normally then its result is the correct one.',
 ['fault_sequences','schedules','inputs'],
 'every position and kind of failure (I/O error, out of memory, failing operator, failing thread start, interpreter-level interrupt in a worker) in every expression graph under every schedule',
 'No test makes a source or operator fail during an evaluation.',
 [I],[('abort signal through the graph','Node.abort, ConsumerNode.run, ProducerNode.run'),('discarded result on abort','NdarrayNode.abort, Group.evaluate')],
 [('QUEUE_ABORT','marker sent downstream on failure','_init.py')],['exception or return value of the evaluation calls'])
p('C05','Every evaluation terminates',
 'As long as the data sources eventually respond, every evaluation call returns or raises within a bounded number of scheduling steps: there is no interleaving of worker threads, no sharing pattern between the requested expressions, no chunk count and no failure position for which the caller waits for ever.',
 ['schedules','fault_sequences','inputs','configurations'],
 'all schedules, sharing patterns, chunk counts and failure positions',
 'A deadlock needs more chunks in flight than the queues hold and a particular interleaving or failure; tests use one chunk and no failures.',
 [I],[('bounded queues between nodes','ConsumerNode.add_input_nodes'),('finish and abort markers','ProducerNode.run, ConsumerNode.run')],
 [('Queue(maxsize)','capacity of an edge','ConsumerNode.add_input_nodes')],['the evaluation call'])
p('C06','No worker thread outlives its evaluation',
 'Once an evaluation call has returned or raised, every worker thread it started comes to its end within a bounded number of further steps; none stays blocked holding data. This holds after successful evaluations and after evaluations that failed because of a data source, an operation, an unsupported masked operation, or a worker that could not be started.',
 ['schedules','fault_sequences','inputs'],
 'all schedules, graphs and failure positions',
 'The tests never look at the threads an evaluation leaves behind, nor make one fail.',
 [I],[('worker start-up and join','Group.evaluate, Node.thread'),('abort handling','ConsumerNode.run')],
 [('daemon threads','workers of an evaluation','Node.thread')],['set of live threads after the call'])
p('C07','Concurrent evaluations from several threads do not interfere',
 'When several threads evaluate, index or combine expressions at the same time through the shared default engine - the same expression objects, expressions sharing sources, or unrelated ones - each call returns exactly what it would return if it ran alone, and a failure in one call affects no other.',
 ['schedules','histories','fault_sequences'],
 'all interleavings, down to single source lines of the library, of any number of concurrent callers',
 'The suite is single-threaded at the caller side.',
 [I],[('per-call evaluation state','AllThreadedEngine._evaluate / Group'),('expression objects without evaluation state','Array subclasses')],
 [('biggus.engine','engine shared by all threads','biggus/__init__.py')],['results of concurrent evaluation calls'])
p('C08','A failed or interrupted evaluation leaves nothing behind that affects later ones',
 'After an evaluation has failed or its caller was interrupted while waiting, re-evaluating the same or related expression objects once the cause is gone gives the correct result, and repeating an evaluation any number of times gives the same result each time.',
 ['histories','fault_sequences','schedules'],
 'all histories of evaluations with transient failures and interrupts at any position, under all schedules',
 'No test evaluates again after a failure; hardly any evaluates the same object twice.',
 [I],[('fresh nodes and handlers per evaluation','Group._make_node, streams_handler()')],
 [('handler state','partial results','_AggregationStreamsHandler subclasses')],['results of later evaluation calls'])
p('C09','Evaluation never modifies source data, and results are the caller\'s own',
 'No evaluation modifies the data, mask or fill value of any data source or of any other result. The arrays returned by an engine evaluation are writeable copies: changing one changes neither the sources, nor another result of the same or an earlier call (the same expression requested twice included), nor what a later evaluation returns.',
 ['histories','schedules','inputs'],
 'all expressions, schedules, and caller modifications of earlier results between or during later evaluations',
 'Chunks are views on the source data handed to several consumers; whether a consumer writes to one shows only for particular operations, sharing and schedules.',
 [I],[('copy into the result array','NdarrayNode'),('copies made before in-place accumulation','_StdStreamsHandler.process_data and others')],
 [('Chunk.data','may be a view of source data, shared by consumers','Chunk')],['source buffers and returned arrays before/after'])
p('C10','Using an expression never changes it or its relatives',
 'Indexing, transposing, combining, copying, saving or evaluating an expression, successfully or not, in any order and from any thread, never changes the shape, dtype or values that the expression, its parents or previously derived expressions report and evaluate to.',
 ['histories','schedules'],
 'all histories of indexing, combination, copying, saving and evaluation over a family of related expressions',
 'Tests build an expression, use it once and drop it.',
 [I],[('views share parents instead of copying','ArrayContainer subclasses, _ArrayAdapter, ArrayStack._getitem_full_keys, LinearMosaic')],
 [('_cached_shape','cached mosaic shape','LinearMosaic'),('_stack','object array of items','ArrayStack')],['shape, dtype and evaluated values over time'])
p('C11','Building expressions reads nothing; evaluation reads only what is selected',
 'Creating, indexing, reshaping, combining or inspecting expressions (shape, dtype, repr and the like) never reads element data from a data source. Evaluating an expression that was restricted by integers and slices reads, from each underlying source, no element outside those the selection needs.',
 ['histories','inputs','configurations'],
 'all expression-building histories, all selections, all chunk limits',
 'A few tests count accesses for single adapters; none watches reads over arbitrary expression graphs and histories.',
 [I],[('deferred keys','_ArrayAdapter._getitem_full_keys/_apply_keys'),('key push-down','_Elementwise/_Aggregation/LinearMosaic/ArrayStack/... _getitem_full_keys')],
 [],['every read request arriving at a data source'])
p('C12','Evaluation reads in bounded pieces and never runs far ahead',
 'While a computed expression is evaluated, no single read from a data source covers more elements than the chunk limit. A source is never read more than a small fixed number of chunks per processing stage ahead of what the slowest other part of the evaluation has consumed, however slow that part is, so the data held in memory do not grow with the size of the source.',
 ['schedules','configurations','inputs'],
 'all relative speeds and stalls of sources, workers and chunk limits',
 'Read-ahead only shows when one worker is stalled while others run; tests cannot arrange that.',
 [I],[('bounded queues','ConsumerNode.add_input_nodes'),('chunk generation','_all_slices_inner, ProducerNode.run')],
 [('Queue(maxsize)','capacity of an edge','ConsumerNode.add_input_nodes')],['read requests arriving at data sources, in order'])
p('C13','Shared sub-expressions are read once per joint evaluation',
 'When several expressions evaluated in one call share a data source and traverse it in the same order (elementwise operations, or statistics over the same axis), every element of that source is read exactly once in that call, whatever the schedule and chunk limit.',
 ['schedules','configurations','inputs'],
 'all sharing patterns with a common traversal order, all schedules and chunk limits',
 'The tests check this for a handful of one-chunk cases.',
 [I],[('node sharing','AllThreadedEngine.Group._make_node')],[('_node_cache','array to node map','AllThreadedEngine.Group')],['read requests arriving at data sources'])
p('C14','save() writes every element exactly once, in bounded pieces, correctly',
 'Saving an expression to a target writes every element of the target exactly once, with the value (and mask, when saving masked) that evaluating the expression gives, in writes none of which covers more elements than the chunk limit, for every shape, chunk limit, source latency and worker schedule. When save returns, everything has been written.',
 ['configurations','inputs','schedules'],
 'all expressions, targets, chunk limits and schedules',
 'Tests check one fixed array with two chunk sizes and only that something was written.',
 [I],[('slice coverage','_all_slices, _all_slices_inner'),('chunk loop','save')],[('MAX_CHUNK_SIZE','chunk limit','_init.py')],['write requests arriving at the target'])
p('C15','An interrupted save never leaves wrong data and can be repeated',
 'If reading a source or writing the target fails, or the process dies, at any point of a save, the failure reaches the caller and every element of the target holds either its previous value or its final correct value. Repeating the save once the cause is gone makes the target complete and correct.',
 ['crash_points','fault_sequences','schedules'],
 'every failure or crash point of a save, including writes that were lost or torn at the end, and any number of failed attempts before a successful one',
 'No test lets a save fail or checks the target afterwards.',
 [I],[('errors propagate out of the chunk loop; no state kept between saves','save')],[],['content of the target after each attempt'])
p('C16','The Dask engine gives the NumPy result for every task order and chunking',
 'Evaluating expressions with the Dask engine gives the same arrays as NumPy (and hence as the default engine) for every valid execution order and parallel interleaving of the tasks of the generated graph, for every chunk limit, including expressions whose inputs are chunked differently and several expressions evaluated together.',
 ['schedules','inputs','configurations'],
 'all topological orders and interleavings of the task graph, all supported expressions, all chunk limits',
 'The tests look at the names of graph tasks; only a few values of one-chunk graphs are ever computed.',
 [D,K,I],[('graph construction','DaskGroup._make_nodes, _make_stream_handler_nodes'),('grouping of differing chunkings','key_grouper.group_keys'),('result assembly','DaskGroup.collect')],
 [('_node_cache','array to tasks map','DaskGroup')],['return value of DaskEngine.ndarrays/masked_arrays; graph()'])
p('C17','Dask graph tasks can be re-executed: worker loss, retries, graph reuse',
 'Every task of a graph generated by the Dask engine can be executed again - because a worker was lost, a task was retried or duplicated, or the whole graph is computed again - without changing any result; a failing task surfaces as an error to the caller and a retry after a transient failure gives the correct result.',
 ['fault_sequences','schedules','histories'],
 'every set of lost, repeated, duplicated or failing task executions in every order',
 'No test executes a task twice.',
 [D],[('tasks as functions of their inputs','DaskGroup.create_chunks_handler_fn, collect, lazy_chunk_creator')],
 [('handler','accumulator captured by a task','create_chunks_handler_fn')],['values computed from the graph'])
p('C18','The current engine is the one used, and swapping it never changes results',
 'Every evaluation that needs computation, including those nested inside views, stacks, mosaics and save, is performed by whichever engine is installed at the time of the call; a failing engine\'s error is passed on. Replacing the engine at any point of a session, including between building an expression and evaluating it, never changes the results.',
 ['histories','schedules','configurations'],
 'all histories of engine swaps and evaluations, all schedules',
 'One test swaps in a mock engine for one direct evaluation.',
 [I,'biggus/__init__.py',D],[('late lookup of the engine','ndarrays, masked_arrays, _Aggregation.ndarray/masked_array')],
 [('biggus.engine','current engine','biggus/__init__.py')],['calls arriving at the installed engine; results'])

p('N01','Indexing follows orthogonal NumPy semantics and composes',
 'Indexing any lazy array by integers, slices, index tuples, boolean arrays, ellipsis and new axes selects what orthogonal NumPy indexing selects, and successive indexing equals indexing once by the composition.',
 ['inputs'],'all arrays and index expressions','Tests sample fixed keys.',[I],[('key normalisation','_full_keys, _ArrayAdapter._remap_new_key')])
p('N02','Shape, dtype, size and fill value metadata agree with NumPy',
 'The declared shape, number of dimensions, dtype, byte count, fill value and human-readable size of a lazy array agree with those of the array it evaluates to.',
 ['inputs'],'all arrays','Tests sample fixed arrays.',[I],[('shape/dtype properties','Array subclasses, _sliced_shape, size')])
p('N03','Operators and broadcasting follow NumPy rules',
 'Arithmetic operators and elementwise functions broadcast shapes, promote dtypes and reject unsupported operands as NumPy does.',
 ['inputs'],'all operand pairs','Tests sample fixed operands.',[I],[('broadcast rules','BroadcastArray.broadcast_arrays'),('dtype probe','_Elementwise.__init__')])
p('N04','Invalid requests are rejected when the expression is built',
 'Out-of-range indices, unsupported keys, invalid axes, unbroadcastable shapes and inconsistent stack or mosaic members raise an error at construction.',
 ['inputs'],'all invalid requests','Tests sample fixed requests.',[I],[('checks','_cleanup_new_key, _normalise_axis, ArrayStack, LinearMosaic')])
p('N05','Key grouping partitions the chunks of every input',
 'Grouping several sets of chunk keys of one shape yields groups that tile the shape, are aligned between the inputs, and contain every input key exactly once.',
 ['inputs'],'all compatible key sets','Tests sample fixed key sets.',[K],[('grouping','group_keys, dimension_group_to_lowest_common')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import subprocess
print(len(P))
