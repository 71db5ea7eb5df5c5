import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
HOOK="cfg thingbuf_vp: the crate's atomics, cells, locks, threads and clock are routed through a runtime the harness controls"
T1="The repository's ordinary tests run a handful of fixed histories under whatever schedule the OS gives; its loom models are not part of the test run and cover 2-3 threads with one or two operations each on the dynamic queue only."
p("C01","Queues are linearizable FIFO: every pushed element is popped exactly once",
  "On the dynamic and the static queue, used by any number of producers and consumers at once, all operations appear to take effect one at a time in a single order that respects real time. In that order elements leave in the order in which their slots were reserved; no element is lost, duplicated, invented or altered, a pop reports nothing only when nothing is queued or the oldest element is still being written, and a push is refused only when the slot it would need is still occupied.",
  ["schedules","histories","configurations"],"every capacity, every number of producers/consumers, every mix of by-value, by-reference and closure operations, every interleaving the memory model permits",
  T1,["src/lib.rs","src/thingbuf.rs","src/static_thingbuf.rs"],
  [("slot state / head / tail generation protocol","src/lib.rs Core::push_ref, Core::pop_ref"),("publication on guard drop","src/lib.rs Drop for Ref")],
  ["return values of push/push_ref/push_with/pop/pop_ref/pop_with"],HOOK)
p("C02","Capacity, length and fullness accounting is exact on every history",
  "For every history of operations, including elements that are reserved or popped through a guard still held, the queue's length equals reserved minus popped elements, length plus remaining always equals the capacity it was created with, emptiness agrees with length, exactly `capacity` elements fit before a push is refused, and a refused push hands the value back unchanged. This keeps holding after any number of wrap-arounds and for every capacity, and a capacity of zero is rejected at construction.",
  ["histories","inputs","configurations"],"all operation sequences (with guards held and released in any order), all capacities including powers of two and their neighbours, any number of laps",
  "Tests use two or three capacities, never hold several guards, never wrap more than a few times and check length only at a few points.",
  ["src/lib.rs","src/thingbuf.rs","src/static_thingbuf.rs"],
  [("index/generation arithmetic","src/lib.rs Core::new, next, idx_gen"),("length computation","src/lib.rs Core::len")],
  ["len, is_empty, remaining, capacity, push results"],HOOK)
p("C03","A guard is exclusive and its contents are published race-free",
  "At any moment at most one guard (push, pop, send or receive) gives access to a given slot, and while it exists nobody else reads, writes, recycles or drops that element. Everything written through a guard before it is released happens-before any later access to that element by whoever obtains it next, so safe code never exhibits a data race, for all interleavings and all reorderings the language memory model allows.",
  ["schedules","histories"],"all interleavings and all weak-memory behaviours (C11 release/acquire) of queues and channels",
  "x86 test runs cannot exhibit missing release/acquire edges, and ordinary tests do not observe aliasing.",
  ["src/lib.rs","src/mpsc.rs","src/wait/cell.rs","src/wait/queue.rs","src/util/mutex/spin_impl.rs"],
  [("Acquire load of slot state / Release store on release","src/lib.rs push_ref, pop_ref, Drop for Ref"),("wait cell and wait queue locking","src/wait/cell.rs, src/wait/queue.rs")],
  ["addresses behind live guards; accesses to slot storage and waiter storage"],HOOK)
p("C04","Non-waiting operations always return, whatever guards are held",
  "Every operation documented as not waiting (push, pop, try-send, try-receive, length and similar, and releasing a guard) returns after a bounded number of its own steps, no matter which guards are held by the caller or others, and no matter which other senders or receivers are waiting. On the queues this also holds when another thread has stopped forever in the middle of its own operation.",
  ["schedules","histories","fault_sequences"],"all sets of outstanding guards, all positions in the ring, all points at which other threads stop",
  "Tests never hold a guard across a lap and cannot stop a thread in the middle of an operation.",
  ["src/lib.rs","src/mpsc.rs","src/util.rs"],[("bounded retry with back-off","src/lib.rs push_ref, pop_ref; src/util.rs Backoff")],
  ["whether the call returns"],HOOK)
p("C05","Every element is initialised before use and dropped exactly once",
  "For every history, each element the container creates or is given is eventually dropped exactly once or handed to the caller exactly once; nothing is dropped twice, leaked, or read before it was created, whether the container is dropped empty, partly used, full or wrapped, with messages unread, and for dynamic and static storage alike.",
  ["histories","schedules","configurations"],"all histories up to and including the drop of the container and of all its handles, in every order",
  "Tests check no drop counts; most use types without a destructor.",
  ["src/lib.rs","src/thingbuf.rs","src/static_thingbuf.rs","src/mpsc/async_impl.rs","src/mpsc/blocking.rs"],
  [("drop of initialised slots","src/lib.rs Core::drop_slots"),("first-lap initialisation vs recycling","src/lib.rs Core::push_ref")],
  ["constructor/destructor calls of the element type"],HOOK)
p("C06","Recycling: a writer always gets a fresh or a recycled element, storage reused",
  "A guard handed out for writing always holds either an element newly made by the recycling policy or an element the policy has recycled since it was last used, and the policy is invoked on it exactly once per reservation. New elements are made only the first time a slot is used and to replace an element taken out by value, so in steady state by-reference use creates nothing and each slot keeps its own element; refused operations never touch the policy.",
  ["histories","schedules","configurations"],"all histories, all recycling policies (including shared and user-defined ones), all capacities and laps",
  "Tests check string reuse on one short history with the default policy.",
  ["src/lib.rs","src/recycling.rs","src/thingbuf.rs","src/mpsc.rs"],
  [("new_element on first lap, recycle afterwards","src/lib.rs Core::push_ref"),("replacement on take","src/recycling.rs take")],
  ["calls to the recycling policy; contents of the element behind a new guard"],HOOK)
p("C07","Channels deliver every sent message exactly once, in per-sender order",
  "In each of the channel flavours (async and blocking, dynamic and static), while the receiver exists every message whose send succeeded is received exactly once and unaltered, messages of one sender arrive in the order it sent them, and nothing else is received. End-of-channel is reported only after every sender is gone and every message has been received, and then it is reported every time.",
  ["schedules","histories","configurations"],"any number of senders cloned and dropped at any time, any mix of waiting, timed, try and by-reference sends and receives, any interleaving",
  T1,["src/mpsc.rs","src/mpsc/async_impl.rs","src/mpsc/blocking.rs"],
  [("ring buffer plus close bit","src/lib.rs"),("sender counting and close on last drop","src/mpsc/async_impl.rs, src/mpsc/blocking.rs Drop for Sender")],
  ["values and results returned by receive operations"],HOOK)
p("C08","A waiting receiver is always woken for a message or the last sender's exit",
  "A receiver that waits (a task or a thread, with or without a time limit) is woken and completes once a message has been completely written, or once the last sender is gone; it never sleeps while either is the case. For tasks this holds with respect to the waker given most recently, however often polls, wakers and futures are replaced or abandoned.",
  ["schedules","histories"],"every interleaving of registration, re-registration, sends, guard releases and sender drops",
  "A lost wakeup needs a preemption between registering and re-checking; tests pass whenever timing is kind.",
  ["src/wait/cell.rs","src/mpsc.rs"],[("register then re-check","src/mpsc.rs poll_recv_ref"),("notify after publishing","src/mpsc.rs SendRefInner drop order"),("wait cell state machine","src/wait/cell.rs")],
  ["whether the receive completes"],HOOK)
p("C09","A waiting sender is never stranded while the receiver keeps receiving",
  "A sender waiting for room completes as long as the receiver keeps receiving and releasing messages: when a receiver has taken everything there is and released it, no sender is left waiting, and when all slots are full and a message is received and released, at least one of the waiting senders makes progress. This holds however other senders come, go, time out, are cancelled or barge in, and a waiting thread blocks instead of spinning.",
  ["schedules","histories"],"every interleaving of waiting, notification, cancellation, timeout and non-waiting sends by any number of senders",
  "Needs particular preemptions between notification, registration and removal; tests use one or two senders and no cancellation.",
  ["src/wait/queue.rs","src/mpsc.rs","src/mpsc/async_impl.rs","src/mpsc/blocking.rs"],
  [("wait queue permit / intrusive list","src/wait/queue.rs"),("notify after slot release","src/mpsc.rs RecvRefInner drop order")],
  ["whether sends complete"],HOOK)
p("C10","Dropping the receiver fails all waiting and later sends, returning the value",
  "Once the receiver is gone, every send that is waiting at that moment is woken and fails as closed, and every later send attempt of any kind fails as closed, in each case handing back the value that was to be sent. A send that raced with the drop either reports success or returns its value, never both and never neither, and messages that were sent but not received are dropped exactly once.",
  ["schedules","histories"],"every interleaving of the receiver's drop with sends in any phase, all flavours",
  "Tests drop the receiver at one fixed point with at most one or two waiting senders.",
  ["src/mpsc.rs","src/wait/queue.rs","src/lib.rs"],[("close bit in the tail index","src/lib.rs Core::close"),("closing the wait queue","src/wait/queue.rs close")],
  ["results of sends during/after the receiver's drop"],HOOK)
p("C11","Cancelling a send or receive future leaves no trace",
  "A pending send or receive future may be dropped at any moment (never polled, waiting, already notified, concurrently with a notification or a close) or have its waker replaced, and the channel behaves as if the abandoned attempt had never been made: its value is dropped once and not sent, no message is lost, no other waiter loses a wakeup meant for the channel, the order of the remaining waiters is kept, and the freed future is never touched again.",
  ["schedules","histories","fault_sequences"],"every cancellation point of every future relative to every other operation",
  "Tests cancel one future in one state on one thread.",
  ["src/mpsc/async_impl.rs","src/wait/queue.rs","src/wait/cell.rs"],[("unlinking on drop","src/mpsc/async_impl.rs PinnedDrop for SendRefFuture; src/wait/queue.rs Waiter::remove")],
  ["completion of the other operations after a cancellation"],HOOK)
p("C12","Timed blocking operations honour their time limit and leave no residue",
  "A timed send or receive reports a timeout only after its full time limit has passed and never keeps waiting beyond it, however often its thread is woken for nothing; a timed-out send hands its value back and does not send it, a timed-out receive takes no message. After a timeout the caller is completely forgotten by the channel: no later operation touches its waiting record, and no wakeup is lost because of it.",
  ["schedules","histories","inputs"],"all durations (zero to maximal), all spurious wakeups, all races between expiry, notification and close",
  "Tests wait for real time with one waiter and never touch the channel from another thread after the timeout.",
  ["src/mpsc/blocking.rs","src/wait/queue.rs"],[("timed wait loops","src/mpsc/blocking.rs send_ref_timeout, recv_ref_timeout")],
  ["results and (virtual) return times of timed operations; effects of operations after a timeout"],HOOK)
p("C13","Errors tell the truth and failed operations change nothing",
  "Full, empty, timeout and closed outcomes are reported exactly when they apply, closed taking precedence over full on the sending side and remaining messages over closed on the receiving side; each error's predicates, conversions and messages agree with the variant it is, and errors that carry a value return exactly that value. An operation that fails has no effect on the channel or queue.",
  ["inputs","histories","configurations"],"every error of every operation of every flavour reached in any state",
  "Tests match on two or three variants and never call the predicates.",
  ["src/mpsc/errors.rs","src/lib.rs","src/mpsc.rs"],[("error enums and predicates","src/mpsc/errors.rs"),("closed/full/empty decision","src/lib.rs push_ref, pop_ref")],
  ["error values, predicates, into_inner, Display/Debug; state before/after a failure"],None)
p("C14","The receiver's closed query is exact",
  "Asking the receiver whether the channel is closed answers yes exactly when no sender exists any more, however many senders were cloned and dropped, whether or not messages remain, and in every flavour; a receive that reports end-of-channel is always followed by a yes, and after a yes every message still undelivered can be received without waiting.",
  ["histories","schedules"],"all histories of clones and drops of senders, on any thread",
  "Tests never query it with exactly one sender alive.",
  ["src/mpsc/async_impl.rs","src/mpsc/blocking.rs"],[("sender count","src/mpsc.rs ChannelCore tx_count")],["is_closed"],HOOK)
p("C15","Static storage behaves like dynamic storage and splits at most once",
  "For every history, the statically allocated queues and channels give exactly the results of their dynamically allocated counterparts of the same capacity, including errors, lengths, order, closing and element life cycle, and they can be built in a constant initialiser. A static channel yields its sender/receiver pair at most once over its lifetime, even when several threads try to split it at the same time; every other attempt is refused.",
  ["histories","configurations","schedules"],"all histories of both kinds and all races between split attempts",
  "Static types are exercised by three short tests with fixed histories.",
  ["src/static_thingbuf.rs","src/mpsc/async_impl.rs","src/mpsc/blocking.rs","src/lib.rs"],[("array initialisation","src/lib.rs make_static_array"),("split flag","try_split in src/mpsc/async_impl.rs and src/mpsc/blocking.rs")],
  ["results of the same history on both kinds; results of concurrent split attempts"],HOOK)
p("C16","No memory is allocated after construction, even to wait",
  "After a queue or channel has been created, none of its own operations allocates or frees heap memory, no matter how long it runs, how many senders wait, are cancelled or time out, or how elements are passed; the only allocations are those made by the element type, the recycling policy or the platform's own thread and lock primitives. Static queues and channels never allocate at all.",
  ["histories","schedules"],"all histories after construction, any number of waiters",
  "No test counts allocations.",
  ["src/lib.rs","src/wait/queue.rs","src/wait/cell.rs","src/mpsc.rs"],[("intrusive waiter list","src/wait/queue.rs"),("in-place slots","src/lib.rs Slot")],["calls to the global allocator during operations"],HOOK)
p("C17","A panic in user code never corrupts or wedges a queue or channel",
  "If a caller's closure or the cloning of a waker panics inside an operation, or a guard or handle is dropped while its thread unwinds, the slot concerned is released, later operations proceed normally, and the other side still learns that a handle is gone. If the recycling policy panics, or the destructor of an element that is overwritten by a send or push, the container stays memory-safe: no element is used uninitialised, dropped twice or leaked, and non-waiting operations still return.",
  ["fault_sequences","histories"],"a panic injected at any call-out to user code in any history; any handle dropped during unwinding",
  "One test panics in a closure; nothing injects panics anywhere else.",
  ["src/lib.rs","src/wait/cell.rs","src/mpsc/blocking.rs","src/util/panic.rs"],[("release on guard drop during unwinding","src/lib.rs Drop for Ref"),("close on handle drop","src/lib.rs Core::close"),("catch_unwind around waker clone","src/wait/cell.rs")],
  ["behaviour of later operations after a caught panic; destructor calls"],HOOK)
p("C18","Waiting senders are woken oldest first, one per released slot",
  "When senders are waiting for room, each message received and released wakes the sender that has waited longest, exactly one of them, and wakes nobody when nobody waits; a spurious re-poll or a changed waker keeps a sender's place, and removal of a sender from anywhere in the line does not disturb the order of the others.",
  ["histories","schedules"],"all orders of arrival, cancellation, timeout, re-polling and release",
  "Unit tests wake two or three waiters of a bare wait queue in one fixed order.",
  ["src/wait/queue.rs","src/mpsc/async_impl.rs","src/mpsc/blocking.rs"],[("FIFO intrusive list","src/wait/queue.rs List::enqueue/dequeue/remove")],["which task's waker is called / which thread proceeds"],HOOK)
p("C19","Thread-safety traits are granted exactly when they are sound",
  "No public type can be sent to or shared with another thread unless its element and policy types make that safe: handing an element to another thread requires it to be sendable, and sharing a guard or reading through it from several threads requires it to be shareable. For elements and policies that are both sendable and shareable, all queues, channel handles, guards and futures remain sendable and shareable.",
  ["programs","configurations"],"all public types instantiated with all combinations of sendable/shareable element and policy types",
  "A few compile-time assertions for one well-behaved element type; nothing asserts that a bound is absent.",
  ["src/lib.rs","src/mpsc.rs","src/mpsc/async_impl.rs","src/mpsc/blocking.rs","src/wait/queue.rs","src/wait/cell.rs"],[("unsafe impl Send/Sync","src/lib.rs Slot, Ref; src/wait/*")],["which trait bounds the compiler accepts"],None)
p("C20","Guards are transparent: reading, writing and formatting reach the element",
  "Dereferencing, mutating, formatting and writing text through any guard (push, pop, send or receive, in every flavour) has exactly the effect and result of doing so on the element itself, including all formatting flags and writer errors, and what was written through a push or send guard is what the matching pop or receive guard shows. Formatting a queue, handle or error never disturbs it and never fails.",
  ["inputs","histories"],"all texts, formatting specifications, element types with custom or failing formatters/writers",
  "Two tests compare one Debug output.",
  ["src/lib.rs","src/mpsc.rs"],[("Deref/fmt/Write forwarding","src/lib.rs impl for Ref; src/mpsc.rs impl_ref_inner")],["formatted output and element contents"],None)
p("C21","Builds without std give the same queue and channel guarantees",
  "Built without the standard library (with the allocator only, or with static storage only), the queues and async channels keep the guarantees they have with it: exclusive race-free access, exactly-once ordered delivery, no lost wakeups for receivers or senders, closing, cancellation safety and element life cycle, in every interleaving.",
  ["schedules","histories","configurations"],"the no-std feature combinations, all histories and interleavings of queues and async channels",
  "The repository only type-checks these configurations; no test executes them.",
  ["src/util/mutex/spin_impl.rs","src/util/panic.rs","src/wait/queue.rs","src/lib.rs"],[("spin lock","src/util/mutex/spin_impl.rs")],["same observations as C01-C11, on the no-std build"],HOOK)
p("C22","Built-in recycling policies clear elements and respect capacity bounds",
  "A collection produced by the capacity-bounding policy is empty and has at least the minimum capacity; one it recycles is empty afterwards, keeps its allocation up to the maximum capacity, and is shrunk when it exceeds the maximum. The default policy makes and restores default values, reusing an element's own allocation, and a shared policy behaves exactly like the policy it wraps.",
  ["inputs","configurations"],"all supported collection types, contents, minimum and maximum capacities and prior capacities",
  "Documentation examples only.",
  ["src/recycling.rs"],[("Recycle impls","src/recycling.rs")],["contents and capacity of elements after new/recycle"],None)
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
