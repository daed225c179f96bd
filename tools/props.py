PATHS = "path-sensitive dataflow over the compiler's MIR (every path of the operation, calls entered)"
NOTE = ("Every control-flow path of the entry points is explored on rustc's typed MIR, with calls, futures, closures and trait methods of the "
        "workspace entered; library calls are opaque events with modelled results. Trusts rustc's MIR, the models of std/tokio/futures combinators in engine/models.py, ")
PROPS = [
 dict(id="C01", title="A coordinated channel never ends while a message is outstanding",
  statement="The receiving half of a coordinated channel ends only when the underlying stream has ended or the channel is closed, and in both cases only once every message whose send was admitted has been acknowledged or negatively acknowledged. A message that is being sent, or that was received and not yet settled, keeps the stream open whatever the interleaving of senders, closers and receiver, and settling a message twice counts once.",
  over=["schedules", "histories"], for_all="all interleavings of publish, close, drop, receive, ack and nack on one channel",
  why="The tests run a handful of sequential histories; the property is about every interleaving of the atomic steps of sender, closer and receiver.",
  anchors=[("channel/coordinated_channel/coordinated_publisher.rs", "admission of a send", "Publisher::publish for CoordinatedPublisher"), ("channel/coordinated_channel/coordinated_stream.rs", "end of the stream; settling", "Stream::poll_next for CoordinatedStream; CoordinatedAcker"), ("channel/coordinated_channel/mod.rs", "shared state", "ChannelState, coordinated_channel")],
  technique=PATHS, level_note=NOTE + "and the happens-before argument of DESIGN.md (count before reading closed; closed before reading the count; SeqCst) which turns the checked order of the atomic accesses into the property."),
 dict(id="C02", title="A coordinated channel always ends once closed and settled",
  statement="Once the publisher of a coordinated channel is closed or dropped and every message sent on it has been acknowledged or negatively acknowledged, a receiver that is waiting is woken and then sees the end of the stream. A message that is refused or whose send fails is not outstanding and never keeps the stream open.",
  over=["schedules", "fault_sequences", "histories"], for_all="all interleavings and all outcomes of the underlying sends",
  why="A lost wake-up or a leaked count shows only in one interleaving or after a failing send; the tests use sends that never fail and receivers that poll eagerly.",
  anchors=[("channel/coordinated_channel/mod.rs", "close, withdrawal of a send", "ChannelState"), ("channel/coordinated_channel/coordinated_stream.rs", "registration of the waker, settling", "CoordinatedStream, CoordinatedAcker"), ("channel/coordinated_channel/coordinated_publisher.rs", "failed sends, drop", "CoordinatedPublisher")],
  technique=PATHS, level_note=NOTE + "and AtomicWaker's contract (a wake after the registration is delivered). A send abandoned in the middle by dropping its future is outside the property."),
 dict(id="C03", title="A closed coordinated channel refuses messages; an open one sends exactly once",
  statement="Publishing on a coordinated channel that has been closed fails and sends nothing; publishing on an open one sends the given message exactly once and reports exactly whether that send succeeded. Closing closes the underlying publisher, reports its failure, and a channel once closed never opens again.",
  over=["inputs", "histories", "fault_sequences"], for_all="all histories of publish and close and all outcomes of the underlying publisher",
  why="The tests use an underlying publisher that never fails and do not count sends on the refusing path.",
  anchors=[("channel/coordinated_channel/coordinated_publisher.rs", "publish and close", "Publisher for CoordinatedPublisher")],
  technique=PATHS, level_note=NOTE.rstrip(", ") + "."),
 dict(id="C04", title="In-memory exactly-once queues deliver each message once",
  statement="A message published to an exactly-once in-memory queue is put in the queue once and delivered to exactly one of its consumers exactly once; none is lost, duplicated or invented, whatever the interleaving of publishers and consumers. Publishing fails only if the message cannot be serialized and then enqueues nothing. A consumer never ends by itself.",
  over=["schedules", "inputs", "histories"], for_all="all interleavings of publishers, consumers and consumer creation on one queue",
  why="Tests use few tasks on a friendly scheduler; the property is about every interleaving, and about a consumer dropped or polled spuriously between two steps.",
  anchors=[("queue/in_memory.rs", "publishing, consuming, announcements", "InMemoryQueueHandle, InMemoryPublisher, InMemoryConsumer::poll_next")],
  technique=PATHS, level_note=NOTE + "and the contracts of SegQueue (linearizable), tokio Semaphore and PollSemaphore. The pairing of one announcement per enqueued message and one message per spent announcement is what is decided."),
 dict(id="C05", title="In-memory broadcast queues deliver every message to every consumer once",
  statement="Every message published to a broadcast in-memory queue is delivered exactly once to every consumer that exists when the publish begins and, where nobody would receive it at that time, is kept for a consumer created later. A consumer created while a message is being published receives it at most once and never misses a message published after it was created.",
  over=["schedules", "histories"], for_all="all interleavings of publish and consumer creation",
  why="The race between declaring a consumer and publishing decides who receives a message; the tests create consumers first.",
  anchors=[("queue/in_memory.rs", "registration of consumers; the kept messages; distribution", "InMemoryQueueHandle::declare_consumer, publish (Broadcast)")],
  technique=PATHS, level_note=NOTE + "and the contracts of DashMap (per-entry atomicity), SegQueue and Semaphore."),
 dict(id="C06", title="A queue name denotes one queue, with the options it was declared with",
  statement="Within an in-memory connection, declaring the same name any number of times, concurrently or not, gives handles of one queue, which keeps the options and the serializer it was first declared with; deleting a name affects that queue only; the declared mode alone decides whether a message goes to one consumer or to all.",
  over=["schedules", "inputs", "histories"], for_all="all names, options and interleavings of declare and delete",
  why="A check-then-insert race or an option that is mixed up shows only under concurrency or with options no test combines.",
  anchors=[("queue/in_memory.rs", "registry of queues", "InMemoryConnection::declare_queue, delete_queue"), ("queue/mod.rs", "options", "QueueOptions")],
  technique=PATHS, level_note=NOTE + "and DashMap's entry contract."),
 dict(id="C07", title="No hand-written poll loses a wake-up",
  statement="Whenever a hand-written poll function of the library returns pending, the task's waker is registered with something that will wake it: an inner poll with the same context returned pending as the last thing done, the waker was registered with an AtomicWaker or the task was woken. A poll that took something from its source and delivers nothing polls again or wakes itself.",
  over=["schedules", "inputs"], for_all="all states of the inner sources and all items they may yield",
  why="A lost wake-up needs a particular item (such as an undecodable delivery) or a particular order of polls; the executor's spurious polls hide it in tests.",
  anchors=[("queue/in_memory.rs", "consumer", "InMemoryConsumer::poll_next"), ("queue/amqp.rs", "consumer", "AMQPConsumer::poll_next"), ("channel/coordinated_channel/coordinated_stream.rs", "stream", "CoordinatedStream::poll_next"), ("channel/mod.rs", "lease", "LeaseGuard::poll_next")],
  technique=PATHS + "; every function returning Poll is an entry point", level_note=NOTE + "and the futures contract that an inner poll which returns pending registers the waker it was given."),
 dict(id="C08", title="AMQP queues map names, durability, modes and settlement faithfully",
  statement="On the AMQP back end a declared queue exists under its name with its durability and mode; publishing sends the serialized message once to that queue with its delivery mode and reports success only after the sending and its confirmation were awaited without an error; consuming is with acknowledgements, each message is decoded and delivered with the acknowledger of that very delivery, acking acknowledges and nacking rejects that delivery only; a consumer ends only when the broker ends it; deleting a name deletes its queue and exchange; closing a connection closes its connection to the broker.",
  over=["inputs", "configurations", "fault_sequences"], for_all="all names, options, payloads and broker replies",
  why="The AMQP tests need a broker and are not run; nothing at all exercises this code offline.",
  anchors=[("queue/amqp.rs", "the whole AMQP back end", "AMQPConnection, AMQPQueueHandle, AMQPPublisher, AMQPConsumer, AMQPAcker")],
  technique=PATHS, level_note=NOTE + "and lapin's documented API semantics; the broker itself is not analysed."),
 dict(id="C09", title="An AMQP broadcast reaches every consumer",
  statement="On the AMQP back end a message published to a broadcast queue is sent to a fanout exchange, and every consumer of the broadcast queue has a queue of its own that is bound to that exchange, so that each message reaches every consumer.",
  over=["configurations", "histories"], for_all="all numbers of consumers of one broadcast queue",
  why="Needs a broker and at least two consumers; no test that runs here reaches it.",
  anchors=[("queue/amqp.rs", "broadcast topology", "AMQPConnection::declare_broadcast, AMQPQueueHandle::declare_consumer")],
  technique=PATHS, level_note=NOTE + "and AMQP semantics of fanout exchanges. One known finding: consumers share the queue."),
 dict(id="C10", title="Success is reported only if every step succeeded",
  statement="No operation of the library that can report failure (publishing, closing, acknowledging, declaring, executing, folding and all the others) reports success on a path on which a step it relies on failed, and no result of a fallible step is dropped unread outside the places that give it up by design (shutting down, settling an aborted task).",
  over=["fault_sequences", "inputs"], for_all="all failures of all steps of all fallible functions of the library",
  why="Tests do not inject failures into the steps; a swallowed error is invisible as long as nothing fails.",
  anchors=[("queue/publisher.rs", "adapters", "Publisher impls"), ("acker.rs", "composition", "ComposedAcker"), ("runtime/mod.rs", "runtime", "Runtime, WorkerRuntime"), ("directive/indexed_stream/foldable.rs", "folding", "IndexedStream::f_fold"), ("queue/amqp.rs", "AMQP", "all")],
  technique=PATHS + "; def-use query for results never read", level_note=NOTE + "excluding the worker's main loop and retrying, which survive failures by design (C12 to C16, C19)."),
 dict(id="C11", title="No blocking lock is held while waiting",
  statement="No function of the library holds a map-shard guard, mutex guard or other blocking lock guard across a point where it may be suspended, so no schedule can deadlock the executor on them.",
  over=["schedules"], for_all="all suspension points of all asynchronous functions",
  why="Needs two tasks on one worker thread hitting the same shard while one is suspended.",
  anchors=[("queue/in_memory.rs", "maps", "InMemoryConnection"), ("queue/amqp.rs", "maps", "AMQPConnection::delete_queue"), ("runtime/mod.rs", "terminated jobs", "WorkerRuntime::main_loop")],
  technique="forward may-initialised dataflow of guard-typed locals to the yield points of every coroutine's MIR", level_note="Whole-program over the library's coroutines; guards are recognised by type (dashmap, std, parking_lot, RefCell). Sound for guards held in locals; a guard hidden in a foreign type without such a type argument would be missed."),
 dict(id="C12", title="A worker settles each task exactly once, by its outcome",
  statement="A worker executes a task it took at most once, acknowledges it exactly once if its execution succeeded and its result was dealt with, and negatively acknowledges it exactly once if its execution failed or was abandoned because the worker is stopping; it never settles another task, never settles a task before its outcome is known and never leaves one unsettled. The one exception is the task of a job that has been terminated, which is not executed.",
  over=["schedules", "fault_sequences", "histories"], for_all="all sequences of tasks, outcomes, abort signals and failures of the channels",
  why="The tests run jobs that succeed on an in-memory queue which does not redeliver; a task settled twice or never is invisible there.",
  anchors=[("runtime/mod.rs", "one turn of the worker's loop", "WorkerRuntime::main_loop")],
  technique=PATHS, level_note=NOTE + "and the tokio select! model (any ready branch may be taken)."),
 dict(id="C13", title="A worker answers each task once, on its channel, with its own output",
  statement="For every task that a worker executed successfully it sends exactly one result, which is the output of the operation the task names on the task's input, together with the task's own metadata and serializer, to the exactly-once channel the task's routing key names; for a task without an output it sends no output. Executing a task does not panic.",
  over=["inputs", "histories", "schedules"], for_all="all tasks, operations and outcomes",
  why="A mixed-up metadata, channel or operation shows only with several jobs or operations in flight.",
  anchors=[("runtime/mod.rs", "dispatching a result", "WorkerRuntime::main_loop, dispatch_result"), ("task/mod.rs", "executing a task", "AnyTask::remote_execute"), ("paladin-opkind-derive/src/lib.rs", "the generated functions", "RemoteExecute derive")],
  technique=PATHS, level_note=NOTE + "and the compiled output of the derive macro on three probe operations standing for all operations."),
 dict(id="C14", title="A failure of a task is dealt with as its strategy says",
  statement="A fatal failure that terminates is sent as an error to the leader of exactly the job the task belongs to and one signal to abort everything is broadcast on the command channel, and the leader sees it as an error; an ignored failure is not reported, aborts nothing, and the worker goes on with the next task.",
  over=["fault_sequences", "inputs"], for_all="all failures and strategies",
  why="Both messages must go out whatever else fails, on the right channels; the tests look at one failing operation and only at the error of the job.",
  anchors=[("runtime/mod.rs", "failures", "WorkerRuntime::dispatch_fatal, CoordinatedTaskReceiver/receiver map"), ("operation/error.rs", "strategies", "FatalStrategy")],
  technique=PATHS, level_note=NOTE.rstrip(", ") + "."),
 dict(id="C15", title="No task of a job known to be terminated is executed",
  statement="Once a worker has seen a job terminate (by a fatal failure of one of its tasks there or by an abort command), it executes no further task of that job, goes on with the tasks of other jobs, and remembers the termination: only entries beyond an age leave the record.",
  over=["schedules", "histories"], for_all="all interleavings of tasks, failures and abort commands",
  why="Needs tasks of a dead job behind the failing one, and jobs side by side; the tests run single jobs.",
  anchors=[("runtime/mod.rs", "record of terminated jobs", "WorkerRuntime::main_loop, spawn_ipc_listener")],
  technique=PATHS, level_note=NOTE + "and DashMap's contract. How long entries live is only checked to be an age limit, not its value."),
 dict(id="C16", title="An abort signal reaches the running operation and stops the worker",
  statement="An abort command received while an operation runs is signalled to it: an abort of everything sets the abort flag that was given to the operation and makes the worker stop without taking another task; no signal is lost because it came between two tasks; nothing else stops a worker.",
  over=["schedules"], for_all="all interleavings of commands with the worker's loop",
  why="A signal that comes between two tasks or at the moment a task ends is seen only in one interleaving.",
  anchors=[("runtime/mod.rs", "signals", "WorkerRuntime::main_loop, spawn_ipc_listener")],
  technique=PATHS, level_note=NOTE + "and the contract of tokio's watch channel."),
 dict(id="C17", title="No background task outlives what it works for",
  statement="Every task that is spawned is either owned by something whose end aborts it (the worker's listener and clean-up by its main loop, the emulated workers by the runtime) or ends on its own after a bounded number of steps; dropping a runtime stops all of its workers.",
  over=["histories", "schedules"], for_all="all spawn sites of the library and all ways in which their owners end",
  why="A leaked task is invisible to a test, which ends with its process.",
  anchors=[("runtime/mod.rs", "background tasks; emulated workers", "WorkerRuntime::main_loop, Runtime::drop"), ("channel/mod.rs", "release", "LeaseGuard")],
  technique=PATHS + "; call-graph query for spawn sites", level_note=NOTE + "and the contracts of JoinSet (drop aborts) and of JoinHandle."),
 dict(id="C18", title="User code cannot take a worker down",
  statement="Every operation is executed on a thread of its own with the worker's abort signal; a panic in the operation or in the serialization of its output, input that cannot be decoded and output that cannot be encoded each become a fatal error which terminates the job; an operation no worker knows is a fatal error too. None of them makes the worker panic, and an error the operation returns is passed on as it is.",
  over=["inputs", "fault_sequences"], for_all="all operations, inputs and ways of failing",
  why="The number of ways in which user code can fail is unbounded; the tests have one operation that panics.",
  anchors=[("paladin-opkind-derive/src/lib.rs", "the generated functions", "RemoteExecute derive"), ("task/mod.rs", "dispatch by number", "AnyTask::remote_execute"), ("operation/mod.rs", "operations", "Operation")],
  technique=PATHS + ", over the compiled output of the derive macro on probe operations", level_note=NOTE + "and spawn_blocking's contract (a panic becomes a JoinError). A panic inside a user's Deserialize is outside."),
 dict(id="C19", title="Retrying follows the strategy of the error",
  statement="A transient error is retried as its strategy says (never more than the maximal number of attempts, after the delay of the strategy, each time by the same attempt), the outcome is that of the last attempt, an exhausted strategy becomes a fatal error with the given fatal strategy, a fatal error is not retried, and every retried failure is reported to the tracer once.",
  over=["inputs", "fault_sequences"], for_all="all strategies, numbers of attempts and sequences of outcomes",
  why="The number of attempts and the outcomes of each are unbounded; off-by-one errors at the boundary hide from sampled values.",
  anchors=[("operation/error.rs", "retrying", "RetryStrategy::retry, retry_trace, OperationError::retry, retry_trace")],
  technique=PATHS + ", with numbers followed exactly for small bounds", level_note=NOTE + "and the backoff crate. Counting is checked for every path of up to four attempts; the loop body does not depend on the number beyond it."),
 dict(id="C20", title="Errors keep what they were made with",
  statement="Every constructor, conversion and accessor of the operation errors keeps the underlying error and the strategies it is given; the defaults are to terminate on a fatal error and to retry a transient one.",
  over=["inputs"], for_all="all errors and strategies",
  why="The conversions are many and generic; few are called in tests and what they carry is not looked at.",
  anchors=[("operation/error.rs", "errors", "FatalError, TransientError, OperationError, IntoFatal...")],
  technique=PATHS, level_note=NOTE.rstrip(", ") + "."),
 dict(id="C21", title="A task runs the operation it was made for",
  statement="Every operation that is derived has a number of its own, the operations of a crate are numbered in the order of their definition and too many are refused when compiled; the function registered under a number is the one generated for that operation, a task carries the number of its operation, and a worker executes exactly that operation, built from the task, on the task's input.",
  over=["inputs", "configurations"], for_all="all sets of derived operations",
  why="A collision or shift of numbers needs several operations of different types; a test with one operation cannot see it.",
  anchors=[("paladin-opkind-derive/src/lib.rs", "numbering and registration", "RemoteExecute derive"), ("task/mod.rs", "tasks", "Task::as_any_task, AnyTask::remote_execute")],
  technique=PATHS + ", over the compiled output of the derive macro on probe operations, and over the macro itself", level_note=NOTE + "within one crate of operations (the library numbers per crate), and linkme's slices in the order of definition."),
 dict(id="C22", title="What is encoded is decoded by the serializer it names",
  statement="Each serializer encodes and decodes with the same codec; an operation encodes and decodes in the format that is asked for; the configured serializer is the one a runtime and its queues use; a task is encoded with the serializer it carries and decoded and answered with it, an output is decoded with the serializer it carries; and every type of the library that is sent is read back with all its fields and variants in the order in which they are written.",
  over=["inputs", "configurations"], for_all="all serializers, values and configurations",
  why="A mismatch shows only for the configuration which no test uses (the tests use the default serializer).",
  anchors=[("serializer/mod.rs", "codecs", "Serializer"), ("task/mod.rs", "tasks and outputs", "Task::as_any_task, AnyTaskOutput::into_task_output"), ("runtime/mod.rs", "configuration", "Runtime::from_config")],
  technique=PATHS + ", and a comparison of the derived serde implementations' write and read sequences", level_note=NOTE + "the codecs (postcard, ciborium) and user types' serde implementations being right."),
 dict(id="C23", title="A map gives every input its own result, exactly once",
  statement="Mapping a stream sends every item to a worker exactly once as a task of the given operation that carries the item's index, hands out every result exactly once under the index its task carried and acknowledges it, reports errors of the input and of tasks in the result and drops nothing silently; it closes the channel only when all input is sent. Mapping a single value sends it once and gives its result. Chained directives feed each the output of the one before.",
  over=["inputs", "schedules", "fault_sequences"], for_all="all streams, orders of results, and errors among the input and the results",
  why="Results arrive in any order and errors at any place; the tests map short streams without errors and compare sums or sorted values.",
  anchors=[("directive/indexed_stream/functor.rs", "mapping streams", "Functor for IndexedStream"), ("directive/literal/functor.rs", "mapping values", "Functor for Literal"), ("directive/mod.rs", "chains", "Map, Fold, Directive")],
  technique=PATHS, level_note=NOTE + "and the contracts of the futures combinators. That results do arrive is a matter of the channel and worker properties."),
 dict(id="C24", title="A fold combines only neighbours, in order",
  statement="A fold combines two partial results only if the input ranges they are made of are adjacent, gives them to the operation in the order of the input, and takes what comes back for the joint range: so the result is that of a sequential fold for every associative operation, commutative or not. The combination is executed as the operation's own, on the two elements in that order.",
  over=["inputs", "schedules"], for_all="all lengths of input, orders of items and orders of results",
  why="The tests fold with commutative operations or few items, for which a swapped or wrongly ranged pair gives the same value; which pairs meet depends on the schedule.",
  anchors=[("directive/indexed_stream/foldable.rs", "ranges, tasks", "Metadata, Dispatcher"), ("contiguous/queue.rs", "neighbours", "ContiguousQueue"), ("operation/mod.rs", "combining", "Monoid as Operation")],
  technique=PATHS + "; the adjacency test evaluated over small ranges (it compares bounds only)", level_note=NOTE + "and indices 0..n each once, as streams made by the library have. Associativity is the user's."),
 dict(id="C25", title="A fold ends with what is made of all its input, and only then",
  statement="A fold succeeds only with what is made of all items of the input: the empty value if there are none, the item if there is one, and otherwise the result whose range covers as many items as the input had. That result is recognized when it arrives after the end of the input and also when it came before the end; no other result ends the fold. An error of the input or of a task fails the fold.",
  over=["inputs", "schedules"], for_all="all lengths of input and interleavings of input and results",
  why="Whether the last combination comes back before or after the input ends is a matter of timing; the tests' inputs end at once.",
  anchors=[("directive/indexed_stream/foldable.rs", "size and final result", "f_fold, Metadata")],
  technique=PATHS + "; the test for completeness evaluated over small ranges and sizes (it compares bounds only)", level_note=NOTE + "and indices 0..n each once. That the final result arrives is a matter of the channel and worker properties."),
 dict(id="C26", title="A fold loses no item and no partial result",
  statement="Every item of the input and every partial result that comes back is either kept in the queue or goes into exactly one task together with its neighbour, every task that is made is sent exactly once, every result is acknowledged once, and a fold whose task cannot be handed on fails instead of waiting for it.",
  over=["inputs", "schedules", "fault_sequences"], for_all="all orders of items and results and all failures to send",
  why="A lost or doubled partial result shows only for the order of arrivals in which it happens, as a hang or a wrong value.",
  anchors=[("directive/indexed_stream/foldable.rs", "items and results", "f_fold, Dispatcher")],
  technique=PATHS, level_note=NOTE + "and the contracts of the futures combinators and channels."),
 dict(id="C27", title="The queue of a fold pairs an element with a neighbour or keeps it",
  statement="Adding an element to the queue of a fold either takes a neighbour of it out of the queue and gives the pair, in order, or keeps the element; an element is found under the bounds of its own range, leaves the queue only when it is handed out, and is not handed out twice.",
  over=["histories", "inputs"], for_all="all sequences of operations on the queue",
  why="The queue is a doubly indexed structure; a stale index is seen only after particular sequences of operations.",
  anchors=[("contiguous/queue.rs", "the queue", "ContiguousQueue"), ("contiguous/mod.rs", "neighbourhood", "Contiguous")],
  technique=PATHS, level_note=NOTE + "and operations one after the other, as a fold performs them: its interleavings at the granularity of the lock-free maps are outside. Also the contracts of the concurrent maps."),
 dict(id="C28", title="An indexed stream numbers its input in order and sorts by that number",
  statement="An indexed stream made from an iterator gives every item of it exactly once, in order, numbered 0, 1, 2, ... (an error of a fallible iterator is passed on in its place); polling it gives what it is made of, unchanged; and into_values_sorted gives every value of the stream exactly once in ascending order of its index, or the stream's error.",
  over=["inputs"], for_all="all iterators, streams and orders of indices",
  why="Folding and mapping rest on indices 0..n, each once; the tests use a handful of items, and results rarely arrive out of order there.",
  anchors=[("directive/indexed_stream/mod.rs", "indexed streams", "IndexedStream, from_into_iterator, try_from_into_iterator, into_values_sorted")],
  technique=PATHS + "; the comparison given to the sort is interpreted on symbolic items", level_note=NOTE + "and the contracts of the iterator and slice functions (enumerate, map, sort_*)."),
 dict(id="C29", title="A leased channel is released exactly once, when it is no longer used",
  statement="Leasing a coordinated task channel gives out what was issued for it together with its lease; the lease releases exactly the issued channel, exactly once, when it is dropped; mapping and folding keep the lease until the last result has been taken or the directive has failed, and never leak it; and releasing a channel deletes its queue, once, whatever the back end.",
  over=["schedules", "fault_sequences"], for_all="all runs of a directive, including those that fail or are dropped half way",
  why="A channel that is released too early loses results only for slow workers, one that is never released leaks a queue per directive; neither shows in a single short test.",
  anchors=[("channel/mod.rs", "leases", "LeaseGuard"), ("channel/queue.rs", "releasing", "QueueChannel::release"), ("runtime/mod.rs", "leasing", "Runtime::lease_coordinated_task_channel"), ("directive", "users of leases", "f_map, f_fold")],
  technique=PATHS + ", with drops as events and the lifetime of captured values", level_note=NOTE + "and drop glue as the compiler generates it. Deleting in the background is by a spawned task, whose being run is tokio's."),
 dict(id="C30", title="Wrappers pass everything on faithfully",
  statement="Whatever a wrapper of a channel, publisher, acknowledger or stream is asked to do is done by what it wraps, exactly once, with the same arguments and the same answer: boxed, shared and pinned forms; composed acknowledgers act with the first and then the second and report either's failure; publishing many publishes each in order; a queue channel publishes and consumes on the queue of its own name with the options of its type, each receiver as a consumer with a name of its own; the dynamic channel and factory pass on to the back end in use; the receiver of commands acknowledges each command it hands on.",
  over=["inputs", "configurations", "fault_sequences"], for_all="all arguments, back ends and failures of what is wrapped",
  why="Each wrapper is a few lines that no test looks at in isolation; a swapped ack or a dropped answer is invisible until something fails.",
  anchors=[("acker.rs", "acknowledgers", "Acker for Box, Arc, ComposedAcker"), ("queue/publisher.rs", "publishers", "Publisher"), ("channel/queue.rs", "queue channels", "QueueChannel, QueueChannelFactory"), ("runtime/dynamic_channel.rs", "the configured back end", "DynamicChannel, DynamicChannelFactory")],
  technique=PATHS, level_note=NOTE.rstrip(", ") + "."),
 dict(id="C31", title="Both ends of every channel agree on it",
  statement="A leader and a worker with the same configuration use one task channel, with the configured name or the same default, on which each task goes to one worker; commands are sent to and received from one broadcast channel; a worker sends results to the channel the task names, on which each result has one receiver, and a leader names in its tasks the channel it issued and listens on; results come with an acknowledger for both the queue and the count of pending tasks. The configured back end is the one used, and an in-memory runtime has the configured number of workers on its own channels, at least one by default.",
  over=["configurations"], for_all="all configurations of leaders and workers",
  why="The tests use the default configuration with both ends in one process; a name or kind that differs between the ends shows only in a deployment.",
  anchors=[("runtime/mod.rs", "channels of leaders and workers", "Runtime, WorkerRuntime, get_ipc_receiver, get_ipc_sender"), ("runtime/dynamic_channel.rs", "back end", "DynamicChannelFactory::from_config")],
  technique=PATHS, level_note=NOTE.rstrip(", ") + ". That a queue of the same name is the same queue is C05/C06 in memory and the broker's for AMQP."),
]
NOT_APPLICABLE = [
 dict(id="N01", title="The value of a fold equals the sequential fold",
  statement="For every associative operation, every input and every schedule, the value a fold ends with is that of the sequential fold over the input.",
  over=["inputs", "schedules"], for_all="all inputs and schedules",
  why="End to end, over the user's operation and the history of the queue.",
  anchors=[("directive/indexed_stream/foldable.rs", "folding", "f_fold")],
  reason="Needs an induction over the unbounded history of queue, channel and workers, and the user's operation; the steps of it that are local to code are decided by C23-C28 (neighbours, order, ranges, completeness, no loss)."),
 dict(id="N02", title="A task survives the crash of its worker",
  statement="With the AMQP back end a task whose worker dies before acknowledging is delivered to another worker.",
  over=["crash_points"], for_all="all crash points of a worker",
  why="Which deliveries are outstanding when a process dies depends on the crash point.",
  anchors=[("queue/amqp.rs", "AMQP", "AMQPConsumer, AMQPAcker")],
  reason="Redelivery is the broker's, at run time; what the client owes for it (persistent, durable, ack only after the result is sent, no auto-ack) is decided by C08, C12 and C13."),
 dict(id="N03", title="Issued channel names do not collide",
  statement="No two channels that are issued ever have the same name.",
  over=["histories"], for_all="all histories of issued channels",
  why="A collision is a matter of chance.",
  anchors=[("channel/queue.rs", "issuing", "QueueChannelFactory::issue")],
  reason="A matter of the probability of the random source, not of the code; that a fresh random name is drawn for each issue and used is decided by C30."),
 dict(id="N04", title="Every directive eventually ends",
  statement="With live workers and a working back end every map and fold ends.",
  over=["schedules"], for_all="all schedules",
  why="Liveness over schedules.",
  anchors=[("directive", "directives", "Directive::run")],
  reason="A liveness property over the scheduler, user operations and the network; the local conditions (no lost wake-up, no permit or count lost, closing when nothing is pending, workers that go on after failures) are decided by C02, C04, C07, C12, C14, C18 and C26."),
 dict(id="N05", title="Every value a user sends arrives as the same value",
  statement="For every serializable user type, what is decoded at the other end equals what was sent.",
  over=["inputs"], for_all="all user types and values",
  why="Quantifies over user-written implementations.",
  anchors=[("serializer/mod.rs", "codecs", "Serializer")],
  reason="Depends on the users' serde implementations and on the internals of postcard and ciborium; that both ends use the same codec and that the library's own types are read in the order they are written is decided by C22."),
]
