"""What each check simulates, for MANIFEST.json and the evidence files."""
LOOP = 'event-loop order (posted events, timers, descriptors, environment events), all clocks and timer expiries, event-loop stalls'
CORE_REAL = 'QCoro headers and core sources of /repo, QtCore (QObject, QTimer, queued events, meta-object calls)'
STUB_LOOP = 'event dispatcher and clocks replaced by the simulator'
META = {
    'C01': dict(real=CORE_REAL, stub=STUB_LOOP, workload='random sets of tasks (7 result types, value/exception outcomes, six suspension kinds, layered calls) awaited in random forms by one or several consumers at random times'),
}
NOT_APPLICABLE = {
    'C27': 'A synchronous generator is a pure function of the program that drives it: no schedule, clock, I/O, fault or second party takes part, so there is nothing for a simulator to decide.',
    'C28': 'Decided by the compiler alone (overload resolution and constraints); nothing happens at run time that could be simulated.',
}
META['C02'] = dict(real=CORE_REAL, stub=STUB_LOOP, workload='random sequences of starting coroutines and keeping, dropping, overwriting, moving, self-moving and awaiting their handles at random times while they run')
META['C03'] = dict(real=CORE_REAL, stub=STUB_LOOP, workload='random chains of then() with every callback shape (argument or none, value/void/task result, throwing, with and without error callback, named or temporary task) attached before or after completion')
META['C04'] = dict(real=CORE_REAL + ', QFuture/QPromise', stub=STUB_LOOP, workload='tasks of several types, a custom awaitable passed as a temporary, timers and futures connected to context objects that die before, at or after completion')
META['C05'] = dict(real=CORE_REAL + ', QEventLoop', stub=STUB_LOOP, workload='random blocking waits (eleven forms, finished and pending, values and exceptions), nested through events that block themselves, with a ticking timer, a descriptor and posted events as witnesses of unrelated events')
META['C06'] = dict(real=CORE_REAL, stub=STUB_LOOP, workload='lazy tasks awaited once, repeatedly, while running, after the end, by lazy and eager continuations, by blocking waits, moved, overwritten, dropped or nested')
META['C07'] = dict(real=CORE_REAL, stub=STUB_LOOP, workload='producers of random length and outcome with and without own awaits, consumed through both interfaces with pauses, abandoned between steps; handles moved, swapped, assigned, dropped at random times')
THREADS = 'thread scheduling (cooperative, one thread at a time; switches at every instruction block of QCoro and of the scenario, at the Qt calls they make and at blocking), '
META['C08'] = dict(real=CORE_REAL + ', QThread and its event loop, Qt locks', stub=STUB_LOOP + '; ' + THREADS + 'condition variables and futexes are simulated', workload='awaits of nine signal shapes (0-3 arguments, value types, private signals) with and without timeout, on senders that emit singly and in bursts and are destroyed at random times, consecutive awaits in a loop, and awaits of senders that live on and emit from other threads')
META['C09'] = dict(real=CORE_REAL + ', QThread and its event loop, Qt locks', stub=STUB_LOOP + '; ' + THREADS + 'condition variables and futexes are simulated', workload='listeners on five signal shapes, created early and consumed late, by consumers that are busy between steps, with and without timeout, moved, abandoned, destroyed while waiting or busy; senders that emit in bursts or die, on the same or another thread')
META['C10'] = dict(real=CORE_REAL, stub=STUB_LOOP, workload='sleeps of every duration type (sub-millisecond to weeks, negative), sleep-until on steady, system (with a random offset) and user clocks, and awaits of timers that are started, stopped, re-armed and destroyed meanwhile')
DEV = STUB_LOOP + '; the QIODevice is a scripted sequential device (arrivals, flushes, short and failing writes, close, destruction)'
META['C11'] = dict(real=CORE_REAL + ', QIODevice', stub=DEV, workload='readers that issue random sequences of readAll/read/readLine/direct awaits/readiness waits (every overload, with and without timeout) on devices whose chunks arrive in bursts and gaps and that are closed or destroyed at random times')
META['C12'] = dict(real=CORE_REAL + ', QIODevice, QBuffer', stub=DEV, workload='writers and waiters (every overload, temporary, named and dropped wrappers and tasks) sharing devices that flush in pieces, accept short or failing writes, hold other pending data and are closed or destroyed at random times')
NET = STUB_LOOP + '; the kernel behind the socket calls is a simulated network, the far end is scripted'
META['C13'] = dict(real=CORE_REAL + ', QCoro network, QtNetwork (QTcpSocket and its engine, QHostInfo-free addresses)', stub=NET, workload='one or two TCP clients that connect (through the wrapper in every form, or directly), wait for connection, disconnection, data and written bytes, read and write concurrently, while the peer sends, stalls, closes or resets, attempts are refused, unreachable or never answered, and the program disconnects, aborts, closes or destroys the socket')
META['C14'] = dict(real=CORE_REAL + ', QCoro network, QtNetwork (QLocalSocket and its engine)', stub=NET, workload='one or two local-socket clients that connect (through the wrapper in every form, or directly), wait for connection, disconnection, data and written bytes, read and write concurrently, while the peer sends, stalls, closes or resets, attempts fail at once or meet a full backlog, and the program disconnects, aborts, closes or destroys the socket')
META['C15'] = dict(real=CORE_REAL + ', QCoro network, QtNetwork (QTcpServer, QTcpSocket and their engine)', stub=NET, workload='one to three acceptors issuing waits of every form and timeout, with pauses, on a server whose clients (scripted or within the program) arrive in bursts and gaps, give up or reset early; limited backlog, failing accepts, late listening, close, re-listen and destruction of the server')
META['C16'] = dict(real=CORE_REAL + ', QCoro network, QNetworkReply base class, QNetworkAccessManager (data: replies)', stub=STUB_LOOP + '; the reply is a scripted QNetworkReply (chunks, errors, abort, finish, close, destruction)', workload='awaiters, finish waits (every form and timeout) and readers (every overload) on replies whose body arrives in bursts and gaps and that finish, fail before or with the finish, are aborted, closed or destroyed at random times, also by the awaiter')
WS = CORE_REAL + ', QCoro websockets, QtWebSockets and QtNetwork (%s, handshake and framing code, socket engine)'
META['C17'] = dict(real=WS % 'QWebSocket', stub=NET + ' (handshake and frames)', workload='one or two clients that open (every form, also bad URLs and repeatedly), ping (own and default timeouts, several at once) while attempts are refused, unreachable or never answered, handshakes are rejected, garbled, cut, reset or ignored, pongs are late, lost or duplicated, and either side closes, resets or destroys')
META['C18'] = dict(real=WS % 'QWebSocket', stub=NET + ' (handshake and frames)', workload='up to four streams of the four kinds, obtained, consumed, abandoned and dropped at random times by slow and fast consumers, while the peer sends single and fragmented text and binary messages of many sizes in bursts and gaps, and either side closes, vanishes, resets or destroys')
META['C19'] = dict(real=WS % 'QWebSocketServer', stub=NET + ' (handshake and frames)', workload='one to three acceptors issuing waits of every form and timeout, with pauses, on a server whose clients arrive in bursts and gaps, never shake hands, send garbage, vanish or reset; limited queue, late listening, close, re-listen and destruction of the server')
META['C20'] = dict(real=CORE_REAL + ', QProcess state, signals and error reporting', stub=STUB_LOOP + '; the operating-system half of QProcess (fork, exec, exit notification) is scripted: QProcess::start() is replaced at link time', workload='one to three awaiters starting the process and waiting for its start and end (every overload, own, default and no timeouts) while it starts late, fails to start at once or later, exits, crashes, is killed, is started again or destroyed, and reports unrelated errors')
META['C21'] = dict(real=CORE_REAL + ', QThread and its event loop, Qt locks', stub=STUB_LOOP + '; ' + THREADS + 'condition variables and futexes are simulated', workload='one to four awaiters on the main and a helper thread issuing waits of every form and timeout on a thread that is started and ended by the main or a third thread, ends at once, after a while, from its event loop or on request, is started again or never')
META['C22'] = dict(real=CORE_REAL + ', QThread and its event loops', stub=STUB_LOOP + '; ' + THREADS + 'condition variables and futexes are simulated', workload='one to five coroutines (tasks, lazy tasks, async generators; awaited, kept or dropped; layered; ending with a result or an exception) starting on any thread and moving at random over the main thread and one to three worker threads that start before, during or never, end with moves pending and start again')
META['C23'] = dict(real=CORE_REAL + ', QFuture, QPromise, QFutureWatcher, continuations, QtConcurrent::run and QThreadPool', stub=STUB_LOOP + '; ' + THREADS + 'condition variables and futexes are simulated', workload='futures of five result types produced by the event loop, by threads, by a thread pool, by continuations or ready from the start, ending with a value, one of three kinds of exception, nothing, cancelled or abandoned, each awaited in every form by one to three coroutines on two threads before, while and after it finishes')
META['C24'] = dict(real=CORE_REAL + ', QCoro D-Bus, QDBusPendingCall, QDBusPendingReply, QDBusPendingCallWatcher, QDBusMessage', stub=STUB_LOOP + '; ' + THREADS + 'the bus itself: replies and errors are delivered into the pending calls by the simulator, on a thread of its own like QDBusConnection does', workload='one to three calls that are answered, fail, or never were pending, each awaited by one to four coroutines on two threads, directly and through the wrapper, as calls and as replies of three types, from temporaries and from variables that are assigned other calls meanwhile, before, while and after the answer arrives')
META['C25'] = dict(real=CORE_REAL + ', QCoro QML, QJSEngine, QQmlEngine with its type-loader thread, QFuture', stub=STUB_LOOP + '; thread scheduling (cooperative)', workload='tasks of six origins (three value types, no value, future, timer) that succeed or fail, copied, assigned and dropped at random, with continuations and listeners attached before and after they finish, listeners, script engine and component destroyed early, garbage collected; as C++ and script calls and as QML programs with stored tasks, bindings and handlers')
META['C26'] = dict(real=CORE_REAL + ', QCoro Quick, Qt Quick (QQuickPixmap, its reader thread and cache, QQuickImageResponse, texture factories), QQmlEngine', stub=STUB_LOOP + '; thread scheduling (cooperative, switches at every instruction block of QCoro); the platform plugin has no display', workload='one to five image requests on the main or a reader thread, painted at once or over time, that produce an image, an empty one or one of three kinds of exception, whose responses are cancelled, destroyed before, when or after they finish; and images loaded by Qt Quick itself, dropped early, with the engine destroyed meanwhile')
META['C29'] = dict(real='QCoro test macros and core sources of /repo, QtTest (verdicts, expected failures, polling), QtCore', stub=STUB_LOOP + '; the output of the test is recorded, the data row of a data-driven test is fixed', workload='random scripts of all macros, run with the QtTest macros in a plain function and with the QCoro macros in a coroutine that awaits before and within the checks, compared; and one to three coroutines at once polling conditions that come true and change around the timeout')
