#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that edits stay reviewable)."""
import json, os
T='app/tenncor/'; R='app/rocnnet/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p('C01','Change feed delivers every key\'s newest message to every consumer',
 'Every consumer that keeps reading the change feed is given, for every key, the newest message published for that key, however many other consumers read at other speeds and however often keys are republished in the meantime. No consumer is given a message twice, a message that was not published, or, for one key, an older message after a newer one.',
 ['schedules','histories'],'all interleavings of one publisher and any number of consumers, all key/republication histories',
 'No test touches the feed at all; it is header-only code compiled only into the recording build, and its failures need a consumer parked on an entry that is republished.',
 [T+'include/thread/shareable_cache.hpp',T+'src/thread/shareable_cache.ipp'],
 [('doubly linked list of latest entries, superseded entries unlinked and forwarded to a live one',T+'src/thread/shareable_cache.ipp')],
 [('consumer position','shared pointer into the list, may refer to a superseded entry',T+'include/thread/shareable_cache.hpp')],
 ['messages returned to each consumer'])
p('C02','No reader of the change feed waits forever while a message is available',
 'Whenever a consumer is waiting for the change feed and a message it has not been given is published, that consumer is served within a bounded number of scheduling steps, without any further publication, and so is every other waiting consumer. Forcing waiting consumers out of their wait releases all of them.',
 ['schedules','fault_sequences'],'all interleavings, any number of simultaneously waiting consumers, spurious wake-ups included',
 'No test runs two threads; a lost wake-up shows only with two or more waiting consumers or with a wake-up landing between check and wait.',
 [T+'include/thread/shareable_cache.hpp',T+'src/thread/shareable_cache.ipp'],
 [('condition variable signalled by publication and by escape',T+'src/thread/shareable_cache.ipp')],(),['consumer progress after the last publication'])
p('C03','An ended subscription ends, and stopping the recorder terminates',
 'After a client ends its subscription, both of its streams finish within a bounded number of steps without needing another graph change, while the streams of other clients keep receiving messages. When the recorder is destroyed, at whatever moment relative to subscribing, publishing, unsubscribing and disconnecting clients, every stream finishes and the server thread terminates.',
 ['schedules','fault_sequences'],'all interleavings of subscribe, publish, unsubscribe, shutdown, slow or disconnecting clients',
 'The server is never started by a test; a missed release needs a stop or unsubscribe landing between a stream\'s subscription check and its wait.',
 [T+'src/edgeinfo/grpc_vis/gui_notifier.cpp',T+'src/edgeinfo/grpc_vis_record.cpp',T+'src/thread/shareable_cache.ipp'],
 [('subscription set checked by each stream loop; clear_subscriptions + escape_wait on stop',T+'src/edgeinfo/grpc_vis/gui_notifier.cpp')],
 [('subscriptions','client ids whose streams are to go on',T+'include/edgeinfo/grpc_vis/gui_notifier.hpp')],['stream completion','destructor return'],
 )
p('C04','A stop request to a worker thread always takes effect',
 'A stop requested on a worker thread takes effect whenever it is issued: before the worker reaches its wait or check, while it is waiting, or between two checks; the worker is never left waiting. Requesting a stop is harmless when the worker has already finished, was moved to another handle, or was never started, and a worker that nobody stopped never observes a stop.',
 ['schedules','histories'],'all interleavings of stop, join, move, detach and worker progress',
 'No test uses the stoppable threads; a lost stop needs the request to land between the flag check and the wait, or after thread exit.',
 [T+'include/thread/stop_flag.hpp',T+'src/thread/stop_flag.cpp',T+'include/thread/stoppable_thread.hpp',T+'src/thread/stoppable_thread.cpp'],
 [('per-thread stop flag with condition variable, handed to the creator through a promise',T+'include/thread/stoppable_thread.hpp')],
 [('stop flag','set once by the owner, awaited by the worker',T+'include/thread/stop_flag.hpp')],['worker termination after stop'])
p('C05','Feed, subscriptions, recorder and stop handling are free of races and deadlocks',
 'No interleaving of publishing, reading, subscribing, unsubscribing, stopping and destroying performs a data race, touches freed memory or ends in a deadlock.',
 ['schedules'],'all interleavings of the threaded components through their public interface',
 'Nothing in the test suite is multi-threaded, so no test execution contains the conflicting accesses.',
 [T+'src/edgeinfo/grpc_vis/gui_notifier.cpp',T+'src/thread/shareable_cache.ipp',T+'src/thread/stop_flag.cpp',T+'src/thread/stoppable_thread.cpp',T+'src/edgeinfo/grpc_vis_record.cpp'],
 [('mutexes around the feed and the subscription set; shared ownership of superseded entries and of stop state',T+'src/thread/shareable_cache.ipp')],(),['every memory access of the instrumented components'])
p('C06','Replaying the recorded stream reproduces the live graph',
 'A subscriber that joins at any moment and applies the edge and node messages it receives ends, once the graph stays idle, with exactly the graph\'s live edges, with every destroyed node it was told about marked removed and every live updated node marked updated. This holds for every history of creating, re-wiring and destroying nodes and for every message delay.',
 ['schedules','histories','fault_sequences'],'all graph histories, join times, delivery delays and disconnections of other clients',
 'The recording build is not part of the tests; agreement needs the feed, the capture and release points in every attach/detach path and the keys to agree across a whole history.',
 [T+'src/graph/react/subject.cpp',T+'src/graph/react/iobserver.cpp',T+'src/edgeinfo/grpc_vis_record.cpp',T+'src/edgeinfo/grpc_vis/gui_notifier.cpp'],
 [('edge capture/release in attach/detach, node release on destruction, keyed feed',T+'src/graph/react/subject.cpp')],(),['message streams of simulated clients'])
p('C07','A read of any node reflects the current values of all its leaves',
 'Whenever a node is evaluated while updates are not frozen, its value equals what recomputing its expression from the current leaf values gives, for every history of leaf assignments, initialisations, evaluations, graph growth and node destruction, and whatever order observers happen to be notified in. A reading interrupted by a failed allocation never leaves a stale value behind: the next successful read is current. The shape and the set of leaves a node reports are those of the expression it evaluates, and initialising a leaf again uses that leaf\'s own initialiser.',
 ['histories','schedules','fault_sequences'],'all operation histories over all DAG shapes, every notification order (decided by heap addresses), allocation failures at any point',
 'Tests read fixed small graphs once or twice after a single change in whatever notification order that process happened to have.',
 [T+'src/graph/connector/iconnector.ipp',T+'src/graph/connector/immutable/base_immutable.ipp',T+'src/graph/connector/immutable/immutable.ipp',T+'src/graph/react/subject.cpp'],
 [('push updates for unary nodes, depth-ordered pending queue flushed on eval for n-ary nodes',T+'src/graph/connector/iconnector.ipp')],
 [('pending updates','nodes to be recomputed before the next read',T+'src/graph/connector/iconnector.ipp')],['eval()/expose() of any node'])
p('C08','Node links are symmetric through every rewiring',
 'At every moment a node lists another as its n-th argument exactly when it is registered with that other node for index n, and every registered observer is alive. This holds after any sequence of construction, copying, moving, assignment, dependency replacement, observer stealing and destruction.',
 ['histories','schedules'],'all histories of attach/detach/replace/copy/move/steal/destroy, all notification orders',
 'Tests exercise single attach/detach calls on mocks; asymmetry shows as a dangling or missing link only after a later operation in a longer history.',
 [T+'src/graph/react/subject.cpp',T+'src/graph/react/iobserver.cpp',T+'src/graph/inode.ipp',T+'src/graph/connector/iconnector.ipp'],
 [('subject/observer attach and detach by index',T+'src/graph/react/iobserver.cpp')],
 [('audience','observer to argument-index set',T+'include/graph/react/subject.hpp'),('dependencies','ordered arguments of an observer',T+'include/graph/react/iobserver.hpp')],['get_arguments, n_audience, notifications received, values'])
p('C09','Destroying any node at any time takes exactly its dependents with it, safely',
 'Any node may be destroyed at any moment, including while updates of it or its dependents are pending or frozen: exactly the nodes computed from it (directly or transitively) and the unmanaged helpers that lost their last user die, every other node stays alive and evaluates correctly, and no memory is freed twice, used after it was freed or leaked.',
 ['histories','schedules'],'all graph shapes and histories, all destruction points, all notification orders',
 'Tests destroy small graphs in one order; the dangerous cases need a pending update or a shared argument at the moment of destruction.',
 [T+'src/graph/connector/iconnector.ipp',T+'src/graph/connector/immutable/base_immutable.ipp',T+'src/graph/react/subject.cpp',T+'src/graph/react/iobserver.cpp',T+'src/graph/leaf/constant.ipp'],
 [('UNSUBSCRIBE notification, death_on_broken, death_on_noparent, on-death dependents, graph manager users',T+'src/graph/connector/iconnector.ipp')],(),['liveness of nodes, heap accounting, later evaluations'])
p('C10','A training step applies one simultaneous gradient step',
 'One training step of the gradient-descent and Q-learning models changes every trainable parameter by exactly the step its optimiser prescribes for gradients taken at the parameter values before the step and for the batch just supplied; no parameter sees another\'s new value and no history of earlier steps, predictions, saves or copies changes that. Afterwards predictions use the new parameters, and the Q-learning target network has moved towards the source network by the configured rate.',
 ['histories','schedules'],'all histories of predict/train/copy/save, all parameter update and notification orders',
 'The demos only check that the final error drops; a step mixing old and new weights or using a stale batch still learns.',
 [R+'src/models/gd_net.cpp',R+'src/models/dq_net.cpp',T+'src/utils/gd_utils.cpp',T+'src/graph/connector/iconnector.ipp'],
 [('flush and freeze of the graph around the parameter updates',R+'src/models/gd_net.cpp')],(),['saved parameter values and predictions before/after each step'])
p('C11','Frozen graphs isolate pending changes and lose none of them',
 'While updates of a graph are frozen every node that was readable keeps the value it had when the freeze took effect, whatever leaves are assigned meanwhile. When the freeze is lifted the next read of every node reflects all assignments made since, exactly as if no freeze had happened.',
 ['histories','schedules'],'all interleavings of freeze, unfreeze, assignment, evaluation and graph growth; all notification orders',
 'No test freezes a graph with more than one pending change.',
 [T+'src/graph/connector/iconnector.ipp',T+'src/graph/connector/immutable/base_immutable.ipp'],
 [('freeze flag and pending queue of the graph manager',T+'src/graph/connector/iconnector.ipp')],(),['values read while frozen and after'])
p('C12','A seeded run is reproducible whatever the clock and memory layout',
 'With the generators seeded, two runs of the same program of graph construction, initialisation, training, prediction, sampling and saving produce the same numbers, independent of wall-clock time, heap addresses, and node identifiers.',
 ['schedules','configurations'],'all heap layouts (iteration order of address-keyed containers), clock values and jumps',
 'One test process has one layout and one clock; divergence appears only by comparing runs under different ones.',
 [T+'src/utils/utils.cpp',T+'src/utils/gd_utils.cpp',T+'src/graph/react/subject.cpp',R+'src/models/dq_net.cpp'],
 [('single seeded generator',T+'src/utils/utils.cpp')],(),['predictions, parameters and files of paired runs'])
p('C13','Consecutive random draws are independent',
 'Every random initialisation draws fresh values: two tensors filled one after the other from the same generator do not receive the same stream, and drawing advances the generator that was seeded.',
 ['histories','configurations'],'all sequences of initialisations, seeds and clock values',
 'Tests look at the range and bounds of one filled tensor at a time.',
 [T+'include/tensor/tensor_handler.hpp',T+'src/tensor/tensor_handler.ipp',T+'src/utils/utils.cpp'],
 [('distribution bound to the shared generator',T+'src/tensor/tensor_handler.ipp')],(),['values of consecutive initialisations'])
p('C14','Node identifiers are unique for the lifetime of the process',
 'No two nodes, subscribers or gradient chains ever receive the same identifier, even when memory addresses are reused and the clock stands still or is set back.',
 ['histories','fault_sequences'],'all creation/destruction histories, address reuse, clock stalls and backward jumps',
 'Tests compare a few identifiers; a collision needs address reuse with an unchanged or repeated clock and a weakened random part.',
 [T+'src/utils/utils.cpp',T+'include/graph/react/identifiable.hpp'],
 [('clock, address and random tokens combined',T+'src/utils/utils.cpp')],(),['get_uid() of every node created'])
p('C15','A save that reports success can be loaded back exactly',
 'If saving a model reports success, loading the file afterwards restores every saved parameter bit for bit with its shape, whatever write errors, short writes, full disks or interrupted calls occurred, and a loss of power right after the report does not take it back; if the data did not reach the file, saving reports failure.',
 ['fault_sequences','inputs'],'all fault sequences on the storage calls, all shapes and values',
 'Tests save to a healthy file system only.',
 [T+'src/memory/tensor_io.ipp',T+'src/tensor/tensor.ipp',R+'src/compounds/icompound.cpp',R+'src/models/dq_net.cpp'],
 [('stream state checked after serialisation',T+'src/memory/tensor_io.ipp')],(),['return value of save and the file contents read back'])
p('C16','A failed or interrupted save leaves the old model or the new one',
 'Whatever point a save is interrupted at, by a crash or by a storage error, a later load finds either everything as it was before the save or everything as saved; other models kept in the same file are never lost.',
 ['crash_points','fault_sequences'],'every storage operation of every save as crash or error point',
 'Tests never interrupt a save.',
 [T+'src/memory/tensor_io.ipp',R+'src/compounds/icompound.cpp'],
 [('read-merge-write of the repository file',T+'src/memory/tensor_io.ipp')],(),['file contents after the simulated crash'])
p('C17','Loading a damaged file fails cleanly',
 'Loading from a missing, truncated, torn, bit-flipped or otherwise damaged file never crashes, reads or writes out of bounds, or installs contents that were not saved for that parameter: each parameter ends either with exactly the saved value and shape or reported as not loaded and with its previous state usable.',
 ['fault_sequences','inputs'],'all corruptions of stored files, read errors and short reads',
 'Tests load only files they just wrote.',
 [T+'src/memory/tensor_io.ipp',T+'src/tensor/tensor.ipp',T+'src/graph/leaf/ileaf.ipp',R+'src/compounds/icompound.cpp'],
 [('parse result and shape consistency checks',T+'src/tensor/tensor.ipp')],(),['load result, unfound list and parameter values'])
p('C18','Models sharing one file do not disturb each other',
 'Saving under one label replaces exactly the parameters saved under that label and leaves everything stored under other labels unchanged, and loading by label and position restores each parameter to itself, across any history of saves and loads by several models, including failed ones.',
 ['histories','fault_sequences'],'all histories of saves and loads of several models into shared files, with storage faults',
 'Tests save one model per file.',
 [T+'src/memory/tensor_io.ipp',R+'src/compounds/icompound.cpp',R+'src/models/dq_net.cpp',R+'src/models/gd_net.cpp'],
 [('label:index keys merged into the existing repository',T+'src/memory/tensor_io.ipp')],(),['contents restored per label'])
p('C19','A failed allocation is reported and leaves tensors valid',
 'When the allocator cannot provide memory, the operation reports failure (returns false or throws) and the tensor keeps a valid state: either its previous contents and shape or a plainly unallocated one, usable again once memory returns. Every block obtained from an allocator is returned exactly once to the same allocator with the size it was requested with.',
 ['fault_sequences','histories'],'allocation failure at any request of any tensor history, several allocators',
 'Tests never fail an allocation and never count blocks.',
 [T+'src/tensor/tensor.ipp',T+'include/memory/iallocator.hpp',T+'src/memory/default_alloc.cpp',T+'src/graph/leaf/variable.ipp'],
 [('allocator interface with alloc/dealloc by size',T+'include/memory/iallocator.hpp')],(),['return values, tensor state, allocator ledger'])
p('C20','The recorded edge list is exactly the live graph',
 'At any moment the recorder\'s edge list holds exactly one entry for each argument link between live recordable nodes and none for destroyed ones, and writing it out lists exactly those edges with their argument positions.',
 ['histories','schedules','fault_sequences'],'all histories of graph construction, rewiring and destruction; all container orders',
 'The recording build is not part of the tests.',
 [T+'src/edgeinfo/adjlist_record.cpp',T+'include/edgeinfo/csv_record.hpp',T+'src/graph/react/subject.cpp',T+'src/graph/react/iobserver.cpp'],
 [('edge capture and release callbacks',T+'src/graph/react/subject.cpp')],(),['the written edge file compared with the live graph'])
p('C21','Experience replay stays bounded and trains only on stored experiences',
 'The Q-learning agent never keeps more experiences than its configured capacity, stores and trains exactly at its configured intervals, and each training batch consists of distinct stored experiences, the most recent one staying available; it trains only once a full batch exists. Every stored experience can be drawn and none is certain to be. Copies and moved agents carry on with the experiences and counters of the original.',
 ['histories','schedules'],'all histories of store/train/act, all seeds of the sampling generator, all capacities and intervals',
 'Only the demo uses the agent, with one configuration, and looks at the final error.',
 [R+'src/models/dq_net.cpp',R+'include/models/dq_net.hpp'],
 [('interval counters, bounded experience buffer, shuffled index sample',R+'src/models/dq_net.cpp')],(),['effect of each training step on the parameters, training count'])
p('C22','Copies of models are independent of their originals',
 'A copied model starts with the original\'s predictions and parameters and from then on shares no trainable state with it: training, initialising, loading or destroying either never changes or endangers the other. A moved-to model continues exactly where the original was. Destroying a model gives back everything it owned.',
 ['histories','schedules'],'all histories of copy/move/train/destroy in any order, all notification orders',
 'Tests compare one copy right after copying, not under further training and destruction in both orders.',
 [R+'src/compounds/mlp.cpp',R+'src/layers/fc_layer.cpp',R+'src/models/gd_net.cpp',R+'src/models/rbm.cpp',R+'src/models/db_net.cpp'],
 [('clone/move of layers and rebuilt graphs',R+'src/compounds/mlp.cpp')],(),['predictions and parameters of both models'])
p('C23','Exploration fades on schedule and then stays greedy',
 'The Q-learning agent explores with a probability that falls linearly from its starting value over the configured exploration period to the configured final value and stays there; every other action is the one its network currently scores highest for the given observation. Every chosen action, explored or not, counts once, every action stays in range, an action interrupted by a failed allocation leaves no stale scores behind, and copied or moved agents carry on where the original was in the schedule.',
 ['histories','schedules','fault_sequences'],'all histories of acting, training, loading, copying and moving, all seeds, periods and final rates, allocation failures while acting',
 'No test calls the agent; the rate shows only over many actions, and a stale or foreign network only after training, copies and failures in between.',
 [R+'src/models/dq_net.cpp',R+'include/models/dq_net.hpp'],
 [('action counter, linear annealing, arg_max over the scores of the source network',R+'src/models/dq_net.cpp')],
 [('actions executed','position in the exploration schedule',R+'include/models/dq_net.hpp')],['actions chosen, scores of the same observation'])
# not simulation targets
p('C30','Operators compute their mathematical definition',
 'Every operator gives the value its mathematical definition gives for every input tensor and shape, including broadcasting of scalars, and rejects incompatible shapes.',
 ['inputs'],'all input values and shapes','Tests sample random tensors of a few shapes.',
 [T+'src/graph/operations'],[('element-wise, aggregation and matrix kernels',T+'src/graph/operations/elementary.ipp')],(),['operator results'])
p('C31','Gradients agree with the derivative of the computed function',
 'For every expression and every variable, the derived gradient equals the derivative of the expression at the current values.',
 ['programs','inputs'],'all expressions and values','Tests cover single operators and a few compositions.',
 [T+'src/graph/connector/immutable/immutable.ipp',T+'src/graph/operations'],[('backward functions and jacobian transfer',T+'src/graph/operations/matmul.ipp')],(),['derive() results'])
p('C32','Fast and naive matrix multiplication agree',
 'Multiplying matrices gives the same product whichever internal algorithm the size selects.',
 ['inputs','configurations'],'all shapes and values','Tests use a few sizes.',
 [T+'src/graph/operations/matmul.ipp'],[('Strassen recursion above a size threshold',T+'src/graph/operations/matmul.ipp')],(),['matmul results'])
p('C33','Shape algebra is consistent',
 'Merging, trimming, concatenating, comparing and indexing partially known shapes obey their algebraic laws, and every coordinate maps to a distinct in-range flat index and back.',
 ['inputs'],'all shapes and coordinates','Tests sample random shapes.',
 [T+'src/tensor/tensorshape.cpp'],[('shape operations',T+'src/tensor/tensorshape.cpp')],(),['shape results'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for q in P:
        assert len(q['title'])<=80,(q['id'],len(q['title']))
        f.write(json.dumps(q,ensure_ascii=False)+'\n')
print(len(P),'properties')
