import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Awaiting a task delivers its outcome exactly once, after it finished",
"A coroutine that awaits an eager task is resumed exactly once, only after the awaited coroutine has finished, and receives the value that was returned or the very exception that escaped it. This holds whether the task finished before or after the await began, was moved in between, and whether one or several coroutines await it (a result that moving empties goes to the first of them). A task reports ready exactly when it has no coroutine or its coroutine has finished, and awaiting an empty (default-constructed or moved-from) task never resumes.",
["schedules","programs","fault_sequences"],"every tree of coroutines (result types void, trivially copyable, move-only, non-default-constructible), every interleaving of their suspensions and completions, every place an exception is thrown",
"The unit tests await a handful of fixed shapes driven by one timer each; completion order, moves and exceptions are never combined.",
["qcoro/qcorotask.h","qcoro/impl/taskbase.h","qcoro/impl/taskpromise.h","qcoro/impl/taskpromisebase.h","qcoro/impl/taskfinalsuspend.h","qcoro/impl/taskawaiterbase.h"],
[("awaiters are registered in the promise and resumed at final suspend","qcoro/impl/taskfinalsuspend.h:TaskFinalSuspend::await_suspend"),("result or exception stored in a variant and taken by the awaiter","qcoro/impl/taskpromise.h:TaskPromise::result"),("ready check","qcoro/impl/taskbase.h:TaskBase::isReady")],
["value or exception received at co_await","number of resumptions","Task::isReady()"])
p("C02","Coroutine frames run to completion and are destroyed exactly once",
"A started eager coroutine runs to completion even if its task handle is destroyed, overwritten or moved while it is suspended. Its parameters, locals, result and exception are destroyed exactly once: never before it has finished, and no later than the moment when it has finished and its handle is gone.",
["schedules","programs","fault_sequences"],"every order of handle drops, overwrites and moves relative to suspensions, completions, exceptions and awaiters",
"Tests destroy a handle at one or two fixed moments and do not observe destruction of the frame; a leak or double free in another order passes.",
["qcoro/impl/taskbase.h","qcoro/impl/taskpromisebase.h","qcoro/impl/taskfinalsuspend.h"],
[("reference count shared by handle and running coroutine","qcoro/impl/taskpromisebase.h:TaskPromiseBase::derefCoroutine"),("handle move and destruction","qcoro/impl/taskbase.h:TaskBase::operator="),("self-destruction after completion","qcoro/impl/taskfinalsuspend.h:TaskFinalSuspend::await_suspend")],
["construction/destruction counts of tracked objects in frames","memory errors"])
p("C03","then() continuations run exactly once with the right callback and result",
"A continuation attached to a task is called exactly once, after the task succeeded, with its result (or no argument if it takes none); if the task fails with a standard exception the error callback, when given, is called exactly once instead and the chained task yields a default value, and without one the failure passes on to the chained task. The chained task finishes with the callback's value, the outcome of the coroutine the callback returned, or the exception either callback threw. This holds for pending and finished tasks, temporaries and named tasks, and arbitrarily long chains, awaited or dropped.",
["schedules","programs","fault_sequences"],"every chain of continuations over pending or finished tasks, each link throwing or not, with values, void or further coroutines",
"Tests cover one- or two-link chains with fixed outcomes and timings.",
["qcoro/impl/taskbase.h","qcoro/qcorotask.h"],
[("continuation coroutine for temporaries and for named tasks","qcoro/impl/taskbase.h:TaskBase::thenImpl, TaskBase::thenImplRef"),("error callback dispatch","qcoro/impl/taskbase.h:TaskBase::handleException")],
["callback invocations and arguments","outcome of the chained task"])
p("C04","connect() calls its callback once, and only while the context object lives",
"When a task (or other awaitable) connected to a context object finishes successfully, the callback is called exactly once with the result if the context object still exists, and never once the context has been destroyed. A failed task never calls the callback, and in every case the underlying coroutine still runs to completion and is cleaned up.",
["schedules","fault_sequences"],"every order of task completion, failure and context destruction, every supported callback form",
"The tests check one completion with a live context and one with a dead one.",
["qcoro/impl/connect.h"],[("guarded context pointer checked at completion","qcoro/impl/connect.h:connect")],["callback invocations","memory errors","tracked objects in frames"])
p("C05","waitFor() returns exactly when the awaited work is done and keeps events flowing",
"Blocking on a task or awaitable returns its value or rethrows its exception once it has finished, also when it had finished before and also when several blocking waits are nested. It never returns early, never hangs after the work is done, and events unrelated to the wait keep being processed meanwhile.",
["schedules","programs","fault_sequences"],"every nesting of blocking waits and every completion order of the awaited coroutines",
"Three tests wait for a single coroutine; nesting, out-of-order completion and exceptions inside nested loops are not exercised.",
["qcoro/impl/waitfor.h"],[("nested event loop with completion flag","qcoro/impl/waitfor.h:detail::waitFor")],["return value, exception and simulated time of return","progress of unrelated timers during the wait"])
p("C06","A lazy task runs only when awaited, and then exactly once",
"The body of a lazy task does not start before the task is awaited (directly, through a lazy continuation chain or a blocking wait); once awaited it runs exactly once and its value or exception reaches the awaiter, while an eager continuation attached to it starts it immediately. A lazy task dropped without being awaited never runs its body, and its arguments are released; awaiting it after it finished does not run it again.",
["schedules","programs","fault_sequences"],"every order of creation, move, continuation, await and drop of lazy tasks mixed with suspending and throwing bodies",
"Tests check each form once with a fixed schedule.",
["qcoro/qcorolazytask.h","qcoro/impl/lazytask.h","qcoro/impl/taskbase.h"],
[("initial suspension and resumption by the awaiter","qcoro/impl/lazytask.h:LazyTask::operator co_await")],["body executions","outcome at the awaiter","tracked objects in frames"])
p("C07","Async generators yield every value in order, lazily, then end or throw",
"Iterating an asynchronous generator yields exactly the produced values in production order, and then either ends or rethrows the exception that escaped the producer at that iteration step, with the iterator past the end. The producer does not run ahead of the consumer. Abandoning the generator at any point between steps, moving, swapping or assigning it releases everything the replaced or abandoned producer holds exactly once.",
["schedules","programs","fault_sequences"],"every producer (any mix of suspensions, values, exception, end) against every consumer (suspending between steps, stopping early, moving or replacing the generator)",
"Tests run a few fixed generators to the end; early abandonment, assignment and exceptions under varying suspension are not combined.",
["qcoro/qcoroasyncgenerator.h"],
[("producer/consumer hand-over at yield and advance","qcoro/qcoroasyncgenerator.h:AsyncGeneratorYieldOperation, IteratorAwaitableBase"),("end and exception detection","qcoro/qcoroasyncgenerator.h:AsyncGeneratorIterator::IncrementIteratorAwaitable::await_resume"),("ownership of the coroutine","qcoro/qcoroasyncgenerator.h:AsyncGenerator")],
["sequence of values seen by the consumer","tracked objects in frames"])
p("C08","Awaiting a signal yields the first emission, or empty after the timeout",
"Awaiting a signal resumes the awaiter exactly once with the arguments of the first emission after the await began, delivered through the event loop, for signals with any number of arguments and private signals. With a timeout it yields an empty result if the timeout passed first - never earlier, and no later than the event loop gets to run once it has passed, even if the sender is destroyed - and a late emission or a late timeout has no further effect.",
["schedules","fault_sequences"],"every order and coincidence of emissions, timeout expiry, event-loop stalls, sender destruction and further events",
"Tests use one emission well before or well after the timeout; coincidence, repeated emissions, stalls and sender destruction are timing-dependent and not reached.",
["qcoro/core/qcorosignal.h"],
[("queued connection plus single-shot timer, each cancelling the other","qcoro/core/qcorosignal.h:QCoroSignal::setupConnection, QCoroSignalBase::handleTimeout")],
["received value","simulated time of resumption","number of resumptions"])
p("C09","A signal listener yields every emission once, in order",
"From its creation until it is destroyed, a signal listener yields every emission of the signal exactly once and in emission order, including those that occur while the consumer is busy with something else. With a timeout the listener ends when the consumer has waited that long without an emission, and not before; waiting repeatedly restarts the timeout. Destroying the listener stops it from receiving anything.",
["schedules","histories","fault_sequences"],"every history of emissions and consumer activity: bursts, emissions while the consumer awaits something else, timeouts restarted many times, early destruction",
"Tests emit a few signals at fixed intervals to a consumer that is always waiting; emissions during a busy consumer and repeated timeouts are schedule-dependent.",
["qcoro/core/qcorosignal.h","qcoro/qcoroasyncgenerator.h"],
[("queue of undelivered emissions and the waiting coroutine","qcoro/core/qcorosignal.h:QCoroSignalQueue::setupConnection, QCoroSignalQueue::dequeue"),("generator loop","qcoro/core/qcorosignal.h:qCoroSignalListener")],
["yielded sequence against emitted sequence","end of the generator and its simulated time","receivers left on the sender"])
p("C10","Sleeping and awaiting timers resume once, not early, and never get lost",
"Sleeping for a duration resumes exactly once, not before the duration has elapsed and as soon as the event loop runs after it has; sleeping until a time point does so relative to the clock the time point belongs to, and a time in the past resumes without delay. Awaiting an active timer resumes at its next timeout, once per await; awaiting an inactive timer does not suspend.",
["schedules","inputs","fault_sequences"],"every duration, unit and clock, any number of concurrent sleepers and timer awaiters, event-loop stalls and wall-clock offsets",
"Tests sleep once for 100 ms of real time; concurrency, other clocks, units and stalls are not covered.",
["qcoro/core/qcorotimer.h","qcoro/core/qcorotimer.cpp"],
[("one-shot connection to the timer","qcoro/core/qcorotimer.cpp:QCoroTimer::WaitForTimeoutOperation::await_suspend"),("sleep helpers","qcoro/core/qcorotimer.h:sleepFor, sleepUntil")],
["simulated time of resumption","number of resumptions"])
p("C11","Awaited device reads return the stream intact, and waits report the truth",
"For any sequence of arriving chunks, pauses and a close, the concatenation of awaited reads (all, bounded, line, or the device itself) is exactly a prefix of the bytes that arrived: nothing lost, duplicated or reordered. A read suspends only while nothing is available and the device is open for reading, and is resumed by arrival, close or its timeout; waiting for readiness is true if and only if data became readable before that.",
["schedules","inputs","histories","fault_sequences"],"every chunking, arrival time, notification delay, read size, timeout, and a close or destruction of the device at any moment",
"Tests read a few fixed writes from local sockets and never close, time out and deliver at adjacent moments.",
["qcoro/core/qcoroiodevice.cpp","qcoro/core/qcoroiodevice_p.cpp","qcoro/core/qcoroiodevice.h"],
[("wait for readiness then read synchronously","qcoro/core/qcoroiodevice.cpp:QCoroIODevice::readAll, read, readLine, waitForReadyRead"),("combined ready/close signal","qcoro/core/qcoroiodevice_p.cpp:WaitSignalHelper"),("direct await of a device","qcoro/core/qcoroiodevice.cpp:QCoroIODevice::ReadOperation")],
["bytes returned against bytes delivered","results of waits","simulated time of resumption"])
p("C12","Awaited device writes finish with the number of bytes actually flushed",
"An awaited write hands the whole buffer to the device and finishes when the device has reported all accepted bytes as written, returning that count, or earlier with only what was confirmed if the device is closed or fails. Waiting for written bytes returns the count of the next flush, zero without suspending if nothing is pending, and an empty result on timeout or if the device is not writable. Neither ever hangs or spins once the device has nothing left to write.",
["schedules","inputs","fault_sequences"],"every flush chunking and delay, flushes coinciding with each other, short and failing writes, close during a write, timeouts",
"Tests write one small buffer to a healthy local socket, which is flushed in one piece.",
["qcoro/core/qcoroiodevice.cpp","qcoro/core/qcoroiodevice_p.cpp"],
[("loop over flush notifications","qcoro/core/qcoroiodevice.cpp:QCoroIODevice::write, waitForBytesWritten")],
["returned count against bytes flushed by the device","termination"])
p("C13","TCP socket waits report connect, disconnect and data truthfully",
"Waiting for a socket to connect finishes with true exactly if the connection was established within the timeout and with false on timeout or when the attempt fails, and connecting through the wrapper behaves the same, to the address, with the protocol and the open mode asked for; waiting for disconnection finishes when the socket disconnected, immediately if it was not connected. Reading and writing through the wrapper moves the bytes intact and in order and ends, instead of hanging, when the peer closes or resets the connection.",
["schedules","fault_sequences","histories"],"every order of connect success, refusal, delay, peer data, partial transfer, orderly close and reset against waits with and without timeouts",
"Tests run over a healthy loopback server; refusals, resets, partial transfers and coincidences with timeouts cannot be provoked reliably there.",
["qcoro/network/qcoroabstractsocket.cpp","qcoro/core/qcoroiodevice.cpp"],
[("state-change aware waits","qcoro/network/qcoroabstractsocket.cpp:QCoroAbstractSocket::waitForConnected, waitForDisconnected"),("readiness ends on disconnect","qcoro/network/qcoroabstractsocket.cpp:AbstractSocketReadySignalHelper")],
["results of waits against the simulated network","bytes received against bytes sent","termination"])
p("C14","Local socket waits report connect, disconnect and data truthfully",
"Waiting for a local socket to connect finishes with true exactly if it connected within the timeout and false on timeout or failure, and connecting through the wrapper behaves the same, with the name and open mode asked for; waiting for disconnection finishes when the socket disconnected, immediately if it was not connected. Reading and writing through the wrapper moves the bytes intact and in order and ends, instead of hanging, when the peer closes the connection.",
["schedules","fault_sequences","histories"],"every order of connect success, refusal, delay, peer data, partial transfer and close against waits with and without timeouts",
"Tests run over a healthy local server and cannot provoke failures, partial transfers or coincidences with timeouts.",
["qcoro/network/qcorolocalsocket.cpp","qcoro/core/qcoroiodevice.cpp"],
[("connected-or-failed wait","qcoro/network/qcorolocalsocket.cpp:SocketConnectedHelper"),("readiness ends on disconnect","qcoro/network/qcorolocalsocket.cpp:LocalSocketReadySignalHelper")],
["results of waits against the simulated network","bytes received against bytes sent","termination"])
p("C15","Awaiting TCP connections hands out each accepted connection exactly once",
"Awaiting a new connection returns an already pending connection at once, otherwise the next one to arrive, and nothing on timeout or if the server does not listen. Across any number of consecutive or concurrent awaits every connection is handed out exactly once and in arrival order, and one that arrives as an await times out remains available to the next.",
["schedules","histories","fault_sequences"],"every arrival pattern of clients (bursts, gaps, aborts) against sequences of awaits with and without timeouts",
"Three tests accept a single connection.",
["qcoro/network/qcorotcpserver.cpp","qcoro/network/qcorotcpserver.h"],
[("pending check then signal wait","qcoro/network/qcorotcpserver.cpp:QCoroTcpServer::waitForNewConnection")],
["sockets returned against simulated clients","simulated time of return"])
p("C16","Awaiting a network reply finishes with the reply, and reads keep the body intact",
"Awaiting a reply resumes exactly once after the reply has finished, successfully or with an error, yields that reply, and does not suspend if it had finished already; waiting with a timeout is true exactly if it finished in time. Reads while the reply is in progress return the body bytes intact and in order and never hang once the reply has finished or failed.",
["schedules","fault_sequences","inputs"],"every order of header, body chunks, error, abort, finish and destruction of the reply against reads and waits with timeouts",
"Tests use a healthy local HTTP server with fixed response timing.",
["qcoro/network/qcoronetworkreply.cpp","qcoro/network/qcoronetworkreply.h"],
[("queued completion","qcoro/network/qcoronetworkreply.cpp:WaitForFinishedOperation"),("ready/error/finish combined wait","qcoro/network/qcoronetworkreply.cpp:ReplyWaitSignalHelper")],
["results of waits and reads against the scripted reply"])
p("C17","WebSocket open and ping report success, failure and timeout truthfully",
"Opening a web socket finishes with true exactly if the connection was established within the timeout, without suspending if it already was, and with false on failure or timeout; the request made is the one asked for. A ping yields a round-trip time exactly if an answer arrived within the timeout and before the connection ended, and is empty otherwise, including on a socket that is not connected.",
["schedules","fault_sequences"],"every order of handshake progress, refusal, reset, pong, close and timeout",
"Tests use a healthy local server; failures in the middle of the handshake or a ping are not reached.",
["qcoro/websockets/qcorowebsocket.cpp"],
[("state/error watcher","qcoro/websockets/qcorowebsocket.cpp:WebSocketStateWatcher"),("pong watcher","qcoro/websockets/qcorowebsocket.cpp:QCoroWebSocket::ping")],
["results against the simulated network"])
p("C18","WebSocket message streams yield every message once, in order, until disconnect",
"A message or frame stream obtained from a connected web socket yields every message (or frame with its final marker) of its kind that arrives from the moment it was obtained, exactly once, intact and in order, including those that arrive while the consumer is busy. It ends when the socket disconnects, after everything received before was yielded, or when no message arrives within the timeout while the consumer waits.",
["schedules","histories","fault_sequences"],"every pattern of text/binary messages and fragmentation, bursts while the consumer is busy, disconnects and timeouts",
"Tests send a few messages to an always-waiting consumer.",
["qcoro/websockets/qcorowebsocket.cpp","qcoro/core/qcorosignal.h"],
[("generator over message signals","qcoro/websockets/qcorowebsocket.cpp:watcherGenerator, WebSocketSignalWatcher")],
["yielded messages against sent messages","end of stream"])
p("C19","Awaiting WebSocket connections hands out each connection exactly once",
"Awaiting the next connection of a web socket server returns a pending connection at once, otherwise the next one to arrive, and nothing on timeout, when the server is not listening or when it is closed meanwhile. Every accepted connection is handed out exactly once, in order, across consecutive awaits, and earlier awaits have no effect on later connections.",
["schedules","histories","fault_sequences"],"every arrival pattern of clients and server close against sequences of awaits with and without timeouts",
"Tests await one connection per server object.",
["qcoro/websockets/qcorowebsocketserver.cpp"],
[("listener forwarding new connections","qcoro/websockets/qcorowebsocketserver.cpp:QCoroWebSocketServerSignalListener")],
["sockets returned against simulated clients","memory errors"])
p("C20","Process waits report start and exit truthfully",
"Starting a process through the wrapper, or waiting for it to start, finishes with true exactly if it is running or got running within the timeout, and with false on timeout or when it fails to start; what is started is the program with the arguments and mode asked for. Waiting for it to finish finishes with true exactly if it ended within the timeout, with false on timeout or when it fails to start, and immediately with false if it is not running.",
["schedules","fault_sequences"],"every order of start, failure to start, exit, crash, timeout and event-loop stalls",
"Tests run a real short-lived process; failures to start, crashes and coincidences with the timeout are not reached.",
["qcoro/core/qcoroprocess.cpp","qcoro/core/qcoroprocess.h"],
[("state check then signal wait","qcoro/core/qcoroprocess.cpp:QCoroProcess::waitForStarted, waitForFinished, start")],
["results of waits against the scripted process"])
p("C21","Thread waits report start and end truthfully under every interleaving",
"Waiting for a thread to start yields true if it is running or starts within the timeout and false if it has ended or does not start in time; waiting for it to finish yields true if it has ended or ends within the timeout and false if it was never started or does not end in time. The wait always finishes once the thread has started or ended, wherever that falls relative to the beginning of the wait.",
["schedules","fault_sequences"],"every interleaving of the waiting thread with the start and end of the awaited thread, with and without timeouts",
"Three tests start one thread; the window between checking and subscribing is a few instructions wide.",
["qcoro/core/qcorothread.cpp"],
[("state checks around a signal wait","qcoro/core/qcorothread.cpp:QCoroThread::waitForStarted, waitForFinished")],
["results of waits against the scheduled thread history"])
p("C22","Moving a coroutine to a thread resumes it there, exactly once",
"After awaiting a move to another thread, the coroutine continues exactly once and on that thread's event loop, whether the thread was running already or is started later, and can move on or back any number of times. Code before the move runs on the original thread and everything the coroutine holds survives the move.",
["schedules","programs","histories"],"every interleaving of thread start, event loops and hops of many coroutines between several threads",
"One test moves once to an already running thread.",
["qcoro/core/qcorothread.cpp"],
[("context object moved to the thread and woken by an event","qcoro/core/qcorothread.cpp:ThreadContext::await_suspend")],
["thread identity after each hop","number of resumptions"])
p("C23","Awaiting a future yields its result, exception or cancellation exactly once",
"Awaiting a future (directly, or through result, take-result or finished waits) resumes the awaiter exactly once after the future has finished and on its own thread, with its result or its exception, and does not suspend if it is finished already. A cancelled future also resumes the awaiter, and several awaiters of one future are all resumed.",
["schedules","fault_sequences"],"every interleaving of the producing thread (results, exception, cancellation, finish) with the start of the await, many awaiters",
"Tests use one thread-pool job that sleeps; races between finishing and subscribing are not steered.",
["qcoro/core/qcorofuture.h"],
[("watcher bound to the future","qcoro/core/qcorofuture.h:WaitForFinishedOperationBase::await_suspend")],
["value or exception received","resuming thread","number of resumptions","helper objects left alive"])
p("C24","Awaiting a D-Bus call yields its reply or error exactly once",
"Awaiting a pending call or reply, directly or through the wrapper, resumes the awaiter exactly once after the reply or error arrived and yields it; for a call that has finished already, or was an error from the start, it does not suspend and yields it at once. Several awaiters of one call are all resumed.",
["schedules","fault_sequences"],"every order of reply, error, disconnection and await, before and after completion, with several awaiters of one call",
"Tests call a healthy local service; completed-before-await and error replies at arbitrary moments are not covered, and they need a bus daemon.",
["qcoro/dbus/qcorodbuspendingcall.cpp","qcoro/dbus/qcorodbuspendingreply.h"],
[("watcher on the call","qcoro/dbus/qcorodbuspendingcall.cpp:WaitForFinishedOperation, waitForFinished"),("watcher on the typed reply","qcoro/dbus/qcorodbuspendingreply.h:QCoroDBusPendingReply")],
["message received against message delivered","number of resumptions","helper objects left alive"])
p("C25","QML tasks give their result once to script callbacks and listeners",
"A task handed to QML calls each script continuation exactly once with its result when it has finished, or promptly if it had finished already, and a listener obtained from it exposes the intermediate value until then and the result afterwards with one change notification for it. Copies of the task refer to the same work, every continuation and listener gets the result. Destroying the listener, the task or the script engine early is harmless, and a failed task calls nothing.",
["schedules","fault_sequences","programs"],"every order of completion, failure, continuation, listener creation and destruction, and copies",
"One test binary checks a happy path through QML.",
["qcoro/qml/qcoroqmltask.cpp","qcoro/qml/qcoroqmltask.h"],
[("continuation into the script engine","qcoro/qml/qcoroqmltask.cpp:QmlTask::then"),("listener","qcoro/qml/qcoroqmltask.cpp:QmlTask::await")],
["script callback calls and arguments","listener value and notifications","memory errors"])
p("C26","Image requests finish exactly once with the produced image",
"Every image request passed to an asynchronous image provider signals completion exactly once, after the provider's coroutine has finished, also when it fails or finished synchronously, and then exposes the produced image; the coroutine gets the identifier and size that were requested. Requests are independent of each other, and a response that is destroyed while its coroutine is still pending is left alone.",
["schedules","fault_sequences"],"every order of completion, failure and early destruction over many concurrent requests",
"Two tests load one image each.",
["qcoro/quick/qcoroimageprovider.cpp","qcoro/quick/qcoroimageprovider.h"],
[("continuation reporting the image","qcoro/quick/qcoroimageprovider.cpp:ImageProvider::requestImageResponse")],
["finished notifications","image exposed","memory errors"])
p("C27","Synchronous generators yield exactly the produced values",
"Iterating a synchronous generator yields exactly the values its body produces, in order, computed on demand, and rethrows an exception that escapes the body at that step. Destroying or replacing the generator releases everything its body holds.",
["programs","inputs"],"every generator body and every point at which iteration stops",
"Tests run a few fixed generators.",
["qcoro/qcorogenerator.h"],[("yield and advance","qcoro/qcorogenerator.h:GeneratorIterator::operator++")],["yielded sequence"])
p("C28","Unsupported uses are rejected at compile time and the right wrapper is chosen",
"Awaiting a type without coroutine support, or passing a non-signal, is rejected by the compiler, and wrapping an object of a supported class always selects the wrapper for its most specific class.",
["programs"],"every client program",
"Tests contain one file of static assertions.",
["qcoro/qcorotask.h","qcoro/core/qcoroiodevice.h","qcoro/core/impl/isqprivatesignal.h"],[("concept-constrained overloads","qcoro/qcorotask.h")],["compiler diagnostics"])
p("C29","Coroutine test macros judge and poll like their QtTest counterparts",
"A test coroutine using the test macros reports the same passes, failures, expected failures and skips as a plain test function making the same checks with the QtTest macros, evaluates the same expressions, and ends at the first check that fails, releasing its locals and resuming its awaiter. The polling macros keep events flowing, go on as soon as the condition is true, pass exactly if it comes true within the timeout, and otherwise record exactly one failure.",
["schedules","fault_sequences","programs"],"every script of checks and awaits, and every time at which a polled condition changes, also with several polling coroutines at once",
"The test suite uses the macros to report, but nothing checks their verdicts; the polling macros are not used at all.",
["qcoro/test/qcorotest.h"],[("ending the coroutine","qcoro/test/qcorotest.h:QCORO_VERIFY"),("polling","qcoro/test/qcorotest.h:QCORO_TRY_IMPL")],
["incidents recorded by QtTest","where the coroutine ended","evaluations of conditions and their times"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
