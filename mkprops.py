#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that quoting stays readable). Run: python3 mkprops.py"""
import json
S='src/'; U='src/platform/unix/'; D='crossmist-derive/src/lib.rs'
P=[]
def p(id,title,statement,over,q,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p('C01','Serialization round trip of every built-in value',
  "For every supported type and every value of it, serializing the value and deserializing it as the same type gives an equal value. This holds for any nesting of the supported containers (numbers, strings, paths, tuples up to 20 elements, arrays, options, results, all standard collections, boxes, slices), and for any sequence of values of different types written to one serializer: each value is read back in order, and reading one consumes exactly what writing it produced.",
  ['inputs','histories'],"all values of all types in the closure of the supported leaf types and containers, all sequences of writes into one serializer",
  "tests/serde.rs round-trips a few literals per type; it cannot cover nestings, lengths, niche layouts, the fast path for plain data versus the element-wise path, or interleavings of several values in one stream.",
  [S+'serde.rs',S+'pod.rs',S+'builtins.rs',S+'unsized_builtins.rs',S+'imp.rs'],
  [('plain-data fast path copies raw bytes only for types that implement PlainOldData','src/pod.rs'),('length-prefixed containers, reverse-ordered tuple macro','src/builtins.rs'),('implements! specialization probe','src/imp.rs')],
  [('Serializer.data / Deserializer.pos','the byte stream and the read cursor','src/serde.rs')],['Serializer::into_vec','Deserializer::deserialize'])

p('C02','Rc and Arc sharing structure survives serialization',
  "When a value (or several values written to one serializer, or one message) contains Rc or Arc pointers, two pointers in the copy point to the same object exactly when the corresponding pointers in the original do, at any nesting depth and through any containers. Every shared object appears in the copy once, with equal contents, and its reference count is exactly the number of pointers to it in the copy. The same holds for a program's own kinds of shared pointers, written with the public functions for cyclic objects.",
  ['inputs'],"all acyclic object graphs of Rc/Arc nodes of several types, any order and depth of sharing",
  "Tests share one flat Rc inside a pair. Identity depends on the global order in which shared nodes are met during writing and reading, which only nested, mixed-type graphs exercise.",
  [S+'serde.rs',S+'builtins.rs'],
  [('numbering of shared objects must agree between serializer and deserializer','Serializer::learn_cyclic / Deserializer::learn_cyclic, src/serde.rs'),('Rc/Arc implementations','src/builtins.rs')],
  [('cyclic_ids / cyclics','object address to index; index to rebuilt object','src/serde.rs')],['Rc::ptr_eq, Arc::ptr_eq, strong_count on the deserialized value'])

p('C03','Blocking channels deliver every message once, in order, intact',
  "On a blocking channel or duplex, every value whose send returned Ok is received exactly once, equal to what was sent, and in sending order, whatever the sizes of the messages (including empty ones and ones of many megabytes), the message type, the buffer space, and the relative speed of the two sides. The two directions of a duplex do not affect each other, and a request returns the value the other side sent in response to it.",
  ['inputs','histories','schedules'],"all message types, sequences of messages of any sizes, socket buffer sizes and schedules of one sender and one receiver per direction",
  "Tests send a handful of small values and one large vector; the framing has a separate path for each of: one packet, exactly full packet, several packets, plain data received in place, zero-sized data.",
  [U+'internals.rs',S+'asynchronous.rs',S+'blocking.rs'],
  [('splitting of a message into packets with an end marker','SingleObjectSender::send_next'),('reassembly','SingleObjectReceiver::recv_next')],
  [('data_pos, fds_pos','progress within one message','src/platform/unix/internals.rs')],['Sender::send','Receiver::recv','Duplex::{send,recv,request}'])

p('C04','A closed or dead peer is reported cleanly',
  "If the sending side is dropped or its process dies at any moment, the receiver still gets every message whose sending had completed, then an error if the last message was cut off in the middle, and then Ok(None) on every further call; it never gets a wrong value, a panic, a hang, or an error instead of a queued message. This also holds if the receiving side has left data unread in its direction of a duplex. Sending to a side that no longer exists fails with an error, and a request whose answer never arrives fails with UnexpectedEof or with the error of the transport.",
  ['crash_points','histories'],"all histories of sends followed by a close or a SIGKILL of the sending process at any system call, for all three flavours of channels",
  "Tests drop a sender after complete messages only; no test kills a process in the middle of a message or closes a duplex with data queued in both directions.",
  [U+'internals.rs',S+'asynchronous.rs'],
  [('end-of-stream detection and Unterminated data error','SingleObjectReceiver::recv_next'),('request maps None to UnexpectedEof','src/asynchronous.rs')],
  [],['Receiver::recv','Duplex::request','Sender::send'])

p('C05','Handles travel with their objects: identity, order, ownership',
  "Every file handle contained in a sent object (file, socket, channel endpoint, raw owned handle, in sync, tokio and smol flavours), whatever their number and position in the object, arrives in the same position of the received object as a new, close-on-exec, usable handle of the same open file. The sender's own handles are unaffected. When the received object is dropped, all of its handles are closed, and nothing else remains open.",
  ['inputs'],"all objects with any number of handles (0 to many multiples of the per-packet limit) mixed with any amount of data",
  "Tests pass one or a few files. The per-packet limit of 253 handles, its combination with the data packet limit, and leaks are not reached.",
  [U+'internals.rs',S+'builtins.rs',S+'serde.rs',S+'smol.rs',S+'tokio.rs'],
  [('handles are chunked alongside data chunks','SingleObjectSender::send_next'),('serialize_handle / handles iterator','src/serde.rs')],
  [('Serializer.handles, Deserializer.handles','ordered handles of the object','src/serde.rs')],['fstat identity of received handles','/proc/self/fd'])

p('C06','tokio and smol channels behave like blocking ones',
  "For any history of operations (send, recv, request, splitting a duplex, dropping an end), tokio and smol channels, and blocking channels of which either end has been converted to tokio or smol, produce the same results as blocking channels. An operation which has to wait never blocks the thread: other tasks of the same executor keep running, and the operation completes as soon as the other side makes it possible.",
  ['histories','schedules','inputs'],"all histories over 1..n channels, flavours of either end, message sizes, task interleavings in one executor",
  "Async tests make a few round trips with small messages in separate processes; they never fill a socket buffer, mix flavours on the two ends, or run both ends in one executor thread.",
  [S+'asynchronous.rs',S+'tokio.rs',S+'smol.rs',U+'internals.rs',S+'builtins.rs'],
  [('readiness loops around non-blocking packet operations','blocking_read/blocking_write in src/tokio.rs, src/smol.rs'),('conversion from blocking endpoints','TryFrom impls, src/asynchronous.rs')],
  [],['Sender/Receiver/Duplex of each flavour'])

p('C07','Running a function in a child equals calling it',
  "For every #[func] function and all arguments, starting it in a child process and joining it gives the value that calling the function directly gives, for every way of starting it (spawn and run, blocking, tokio and smol) and every kind of function (plain, generic, async on tokio or smol). Each start executes the body exactly once, in a separate process, with each argument in its own position, and the result may be of any supported type and size, including handles and endpoints.",
  ['inputs','configurations'],"all supported argument and result types and values, all start methods, all function kinds",
  "Tests run about forty fixed functions with one argument value each.",
  [D,S+'asynchronous.rs',S+'blocking.rs',S+'tokio.rs',S+'smol.rs',U+'entry.rs',U+'subprocess.rs',S+'fns.rs',S+'delayed.rs'],
  [('entry object is serialized and run in a re-executed binary','src/asynchronous.rs spawn, src/platform/unix/entry.rs'),('argument binding generated by the macro','crossmist-derive/src/lib.rs')],
  [],['Child::join','run'])

p('C08','join reports exactly what happened to the child',
  "join returns Ok(v) if and only if the child's function returned v and the process then exited successfully (for the unit type, if and only if the process exited successfully). In all other cases (panic, abort, any non-zero exit status, exit without returning, death by any signal, at any point of the child's life) it returns an error, without panicking or hanging, in the blocking, tokio and smol flavours. Being stopped and continued is not the end of a child: join keeps waiting for a stopped child.",
  ['crash_points','inputs'],"all ways and points of time at which a child can end, all result types, all flavours",
  "Tests cover one panic, one exit and one kill, at one point each.",
  [S+'asynchronous.rs',U+'entry.rs',S+'imp.rs',D],
  [('result message combined with exit status','Child::join, src/asynchronous.rs'),('unit results are not sent','if_void, src/imp.rs and crossmist-derive/src/lib.rs')],
  [],['Child::join'])

p('C09','Children are killed, joined and reaped as promised',
  "Once join has returned, whatever it returned, the child process no longer exists (not even as a zombie), and kill on any of its kill handles fails without affecting any process. Until then kill succeeds, and a live child to which it was applied dies and its join returns an error; this holds in any interleaving of spawning, killing, joining and dropping, from any threads, and a pending join never delays a kill of a child that is still running.",
  ['histories','schedules'],"all histories over several children and kill handles, kills racing with joins from other threads",
  "Tests kill one blocked child once. Reaping after an error and kills that race with a join are never exercised.",
  [S+'asynchronous.rs'],
  [('kill permission flag under a mutex, cleared before the process is reaped','may_kill in Child::join / KillHandle::kill')],
  [('may_kill','whether the process id still belongs to the child','src/asynchronous.rs')],['KillHandle::kill','Child::join','waitpid of the pid'])

p('C10','A child holds exactly the handles it was given',
  "A child process started by spawn has open, besides standard streams and its private connection to the parent, exactly the handles that its arguments contain, and handles it received do not leak into its own children. This holds however many spawns run concurrently in other threads and whatever else the parent has open (in the close-on-exec way, which is the default in Rust), so that dropping the last owner's endpoint is noticed by the other side at once. No process closes a descriptor which it does not own, and none is closed twice: in particular a child whose result nobody takes any more, or which panics, exits rather than being aborted.",
  ['schedules','histories','configurations'],"all sets of open channels and files in the parent, any number of concurrent spawns, process trees of any depth",
  "Descriptor leaks are invisible to functional tests: they only delay end-of-stream in particular interleavings of spawns.",
  [U+'subprocess.rs',U+'entry.rs',U+'internals.rs'],
  [('close-on-exec cleared only in the new process between clone and exec','fork_child_main'),('close-on-exec restored at start','crossmist_main'),('close-on-exec sockets and receives','socketpair, recv_next')],
  [],['/proc/self/fd in the child'])

p('C11','Callable objects compute what the function computes',
  "A callable object, made from a #[func] function, by binding captured values (by value, by mutable or shared reference, in any combination), or by lambda!, with any supported number of arguments, gives for every sequence of calls the results that the plain function gives for the captured values and the arguments in their positions. It keeps its own captured state from call to call, whichever call method is used, directly, boxed, or through a trait object. Serializing and deserializing it at any moment gives an independent callable with the same captured state.",
  ['inputs','histories','programs'],"all capture modes and arities, all values, all sequences of calls and round trips",
  "Tests call each binding form once with one value; positions beyond the second argument and state after serialization are untested.",
  [S+'fns.rs',D],
  [('binding structs and argument reordering macros','BoundValue/BoundMut/BoundRef, reverse!, decl_fn! in src/fns.rs'),('lambda! parser','src/fns.rs')],
  [],['call_object, call_object_mut, call_object_once, call_object_box'])

p('C12','Trait objects and static references denote the same thing everywhere',
  "A boxed trait object, a static reference, and a wrapped function pointer, sent to any other process of the program any number of times, denote there the same implementation, constant or function, with equal contents, regardless of the address at which each process is loaded. In the process that created it, a static reference or function pointer that has come back is identical to the original.",
  ['inputs','configurations'],"all implementations, constants and functions of the program, all containers and paths through processes, all load addresses",
  "Each test sends one trait object with one method; load addresses differ at random, and errors of relocation show only with particular types (zero-sized, multi-trait, generic).",
  [S+'relocation.rs',S+'unsized_builtins.rs',S+'static_ref.rs',S+'fns.rs',S+'pod.rs'],
  [('pointers are sent relative to a base function','RelocatablePtr, src/relocation.rs'),('vtable and deserializer pointers','src/unsized_builtins.rs')],
  [],['method results, addresses'])

p('C13','Delayed values arrive unchanged when they are unwrapped',
  "A Delayed value passed to another process or over a channel, alone or among other values and handles, yields when it is unwrapped a value equal to the wrapped one, including its handles in their positions, no matter when it is unwrapped relative to the deserialization of its neighbours, and without affecting them. A Delayed value dropped without unwrapping closes its handles.",
  ['inputs','histories'],"all wrapped values, positions of Delayed among other objects with handles, orders of unwrapping",
  "One test unwraps one value without handles.",
  [S+'delayed.rs',S+'serde.rs',U+'entry.rs'],
  [('nested serializer whose handles are appended to the outer list','src/delayed.rs')],
  [],['Delayed::deserialize'])

p('C14','Signals that interrupt system calls are harmless',
  "If a signal with a handler is delivered to a thread that is inside any operation of the library (send, recv, request, spawn, join), on either side and any number of times, the operation has the same result as without the signal. No message is lost, cut, duplicated or reported as an error because of it.",
  ['fault_sequences','schedules'],"all sets of positions at which a system call is interrupted, in the parent and the child, all operations",
  "No test delivers a signal; interruption inside multi-packet transfers needs a particular moment.",
  [U+'internals.rs',S+'asynchronous.rs'],
  [('retry of interrupted system calls','sendmsg, recvmsg, waitpid call sites')],
  [],['results of every operation'])

p('C15','Abandoned transfers never corrupt later messages',
  "If a send is abandoned or fails part-way (an asynchronous operation is cancelled at any await point, or the transport reports an error), its message is later received whole or not at all, and every other message that was sent successfully is still received intact and in order. If a recv is abandoned or fails part-way, at most the one message being received is lost, and none is lost if nothing of it had arrived.",
  ['fault_sequences','schedules','histories'],"all points at which sends and receives are cancelled or fail, all message sizes and following operations",
  "No test cancels an operation; the broken state appears only in later messages on the same channel.",
  [U+'internals.rs',S+'asynchronous.rs'],
  [('packet markers which delimit messages','SingleObjectSender::send_next, SingleObjectReceiver::recv_next')],
  [('marker byte','message boundaries','src/platform/unix/internals.rs')],['Sender::send then Receiver::recv'])

p('C16','Running out of descriptors while receiving is an error, not chaos',
  "If a message with handles arrives when the receiving process cannot accept all of them, recv returns an error: it does not panic, return a value with missing or wrong handles, or leak descriptors. After descriptors become available the same channel keeps working and delivers the following messages intact.",
  ['fault_sequences','inputs'],"all numbers of handles in a message versus free descriptors, message sizes, flavours",
  "No test limits descriptors; truncated ancillary data is a silent flag.",
  [U+'internals.rs'],
  [('check for truncated control data','SingleObjectReceiver::recv_next')],
  [],['Receiver::recv under RLIMIT_NOFILE'])

p('C17','Failed deserialization releases everything exactly once',
  "If deserializing any part of an object fails, the error is returned to the caller, everything built up to that point is dropped exactly once, and all handles of the message are closed. On a channel only that message is affected: the following messages are received normally, in every flavour and for every kind of error.",
  ['fault_sequences','inputs'],"all positions of failure in all container types, all error kinds, all flavours",
  "No test has a failing deserialization; partial construction of arrays and boxes uses unsafe code.",
  [S+'builtins.rs',S+'unsized_builtins.rs',S+'pod.rs',U+'internals.rs',S+'serde.rs'],
  [('manual drop of a partially initialized array','impl for [T; N], src/builtins.rs'),('WouldBlock from user code is not taken for a socket event','recv_next')],
  [],['drop counters, /proc/self/fd, recv result'])

p('C18','derive(Object) is correct for every type definition',
  "For every struct or enum definition built from supported field types (named, tuple and unit forms, any number of fields and variants, explicit discriminants, generics with bounds, nested and recursive definitions, any field and variant names, whatever other items are in scope where it is defined, as long as they do not hide primitive types), the derived implementation compiles and round-trips every value to an equal one. This holds whether or not the type qualifies for the plain-data fast path, alone, inside containers, and in messages to other processes.",
  ['programs','inputs'],"all type definitions in the grammar, all values of them",
  "Tests derive about ten small types; the space is one of programs.",
  [D,S+'pod.rs',S+'imp.rs'],
  [('generated serialize/deserialize pairs and the plain-data bound','derive_object, crossmist-derive/src/lib.rs')],
  [],['round trip of generated types'])

p('C19','#[func] and lambda! are correct for every signature',
  "For every function signature built from supported types (any number of parameters up to the limit, any parameter names that do not clash with items in scope, generics with bounds, async flavours, visibility, nesting in modules and functions, other items in scope), #[func] compiles, and calling the object, binding arguments one after another in any split, and running it in a child process all agree with the plain function. The same holds for lambda! with any combination of captures and arguments.",
  ['programs','inputs'],"all signatures and capture lists in the grammar, all argument values",
  "Tests contain about forty fixed signatures, most with at most two parameters.",
  [D,S+'fns.rs'],
  [('code generation for functions','func, crossmist-derive/src/lib.rs'),('lambda_parse!, lambda_bind!','src/fns.rs')],
  [],['generated programs'])

p('C20','Channel endpoints keep working wherever they are moved',
  "Channel endpoints may be passed to other processes as arguments, in results and in messages (also through other moved endpoints), any number of times; at every moment the messages on each channel are received in order, exactly once, by whichever process holds the receiving end. A channel reports its end exactly when the other end has been dropped or its last holder has ended, wherever that happened, and no sooner.",
  ['histories','configurations'],"all histories of creating, moving, using and dropping endpoints over a changing tree of processes",
  "Tests pass an endpoint to a child once.",
  [S+'asynchronous.rs',S+'blocking.rs',S+'builtins.rs',U+'internals.rs',U+'entry.rs',U+'subprocess.rs'],
  [('endpoints are objects that contain one handle','derive(Object) on Sender/Receiver/Duplex')],
  [],['model of queues versus observed results'])

p('C21','A spawn that fails leaves nothing behind',
  "If starting a child fails at any step (resource limits, failure to create the connection or the process, failure to execute, death of the child before it has received its task), spawn returns an error without panicking or hanging; if the process had already been created, the error may instead come from joining the child. Afterwards no process or zombie and no open descriptor of the failed attempt remains, the arguments' handles have been released, and later spawns work normally.",
  ['fault_sequences','crash_points'],"all single failures of system calls used while spawning, in the parent and in the new process, all flavours",
  "No test makes spawn fail.",
  [S+'asynchronous.rs',U+'subprocess.rs',U+'internals.rs'],
  [('error paths of spawn','src/asynchronous.rs spawn, src/platform/unix/subprocess.rs')],
  [],['spawn result, wait4(-1), /proc/self/fd'])

p('C22','A program with crossmist::main runs as its main says, with any invocation',
  "A program whose entry point has #[crossmist::main] (of any return type, synchronous or before #[tokio::main], with any other attributes), or calls crossmist::init() first (and any number of times later), behaves, under any name, arguments and environment it is started with, as it would without the attribute: main runs exactly once, in the root process only, sees the same arguments, and its result decides the exit status. Each child starts as a child of the process which spawned it, with that process's environment variables, working directory, standard streams, umask, limits, and signal settings at the time of the spawn, even if the executable file has been moved or deleted meanwhile. Later changes to these on either side do not affect the other.",
  ['programs','inputs','configurations'],"all forms of main, all names, arguments, variables and states of the process that starts children",
  "Tests have one form of main and are started in one way by the test driver.",
  [D,S+'imp.rs',S+'lib.rs',U+'entry.rs',U+'subprocess.rs'],
  [('replacement of main','main, crossmist-derive/src/lib.rs'),('children are recognized by their name','init, src/imp.rs'),('execv of /proc/self/exe','fork_child_main, src/platform/unix/subprocess.rs')],
  [],['generated programs which start themselves'])

with open(__file__.rsplit('/',1)[0]+'/properties.jsonl' if '/' in __file__ else 'properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
