from engine import Job

COMMON = ["Linux x86_64, features tokio and smol; the stable configuration is built with Rust 1.81.0 and the nightly one with nightly-2024-09-06, because newer compilers do not support the trait-detection trick of the crate",
          "dependencies, the standard library and the kernel are correct"]

PLAN = {}
def prop(pid, level, technique, rule, jobs=None, assumptions=(), note="", custom=None):
    e = dict(level=level, technique=technique, rule=rule, assumptions=COMMON + list(assumptions), note=note)
    if custom:
        e["custom"] = custom
    else:
        e["jobs"] = jobs
    PLAN[pid] = e

prop("C01", "exploration", "property-based testing: round-trip oracle over generated sequences of values of mixed types",
     "A case is a sequence of 1-13 values, each of a universal recursive type or of one of ~230 static types, with generated nesting, lengths, "
     "and contents, written to one serializer in generated ways. Non-trivial: at least two values and more than 24 bytes; distinct by the sequence of choices.",
     [Job("c01", "C01", "stable", 8, 60000, 1500000), Job("c01", "C01", "nightly", 4, 20000, 400000), Job("c01", "C01", "asan", 4, 6000, 100000)])

prop("C02", "exploration", "property-based testing: graph-isomorphism oracle over generated object graphs with Rc and Arc",
     "A case is a sequence of values built from generated acyclic graphs of Rc and Arc nodes placed in many containers, written to one serializer or sent as "
     "messages. Non-trivial: at least one object with two or more pointers to it; distinct by the sequence of choices.",
     [Job("c02", "C02", "stable", 8, 200000, 4000000), Job("c02", "C02", "nightly", 4, 80000, 1000000), Job("c02", "C02", "asan", 4, 30000, 400000)])

prop("C03", "exploration", "property-based testing: generated message streams and two-sided histories against a FIFO model, with a thread per side",
     "A case is a stream of generated messages (sizes biased to packet boundaries, up to tens of megabytes) over a channel, or a deadlock-free history of "
     "sends, receives and requests on a duplex, with generated buffer sizes and pauses. Non-trivial: more than one message, or a message of more than one packet.",
     [Job("c03", "C03", "stable", 8, 2500, 40000), Job("c03", "C03", "nightly", 2, 0, 10000)])

prop("C04", "exploration", "property-based testing: generated histories ended at generated points (drop, cut-off message, unread data), against the prefix oracle",
     "A case is a stream of generated messages whose sender disappears at a generated point: after a message, or after a generated number of packets of one "
     "(with the rest never sent), or a duplex history in which one side is dropped with unread data; or the sender is another process, which is killed at a generated packet "
     "or moment, or ends by itself. Non-trivial: every case; distinct by the sequence of choices.",
     [Job("c04", "C04", "stable", 8, 8000, 200000), Job("c04", "C04", "nightly", 4, 0, 40000),
      Job("c04k", "C04", "stable", 8, 1500, 60000), Job("c04k", "C04", "nightly", 4, 0, 20000)])

prop("C05", "exploration", "property-based testing: generated recursive values with up to hundreds of handles, compared by the identity of the open files",
     "A case is a sequence of messages with generated values containing 16 kinds of handles at any position, over channels of all flavours. Every handle received is compared "
     "with the one sent by the identity and offset of its open file, used, and the table of descriptors is compared at the end. Non-trivial: at least one handle.",
     [Job("c05", "C05", "stable", 8, 6000, 100000), Job("c05", "C05", "nightly", 2, 1000, 10000)])

prop("C06", "exploration", "property-based testing: generated histories run on asynchronous channels, differential against the blocking model, with many tasks on one thread",
     "A case is a generated history of operations on up to 4 channels and duplexes run as tasks of one executor (any wait which blocked the thread would deadlock it), "
     "or with a thread per side and mixed flavours (tokio, smol, blocking, and a runtime of our own on the generic interface), with conversions between flavours at generated points. Non-trivial: at least one side is asynchronous and at least two operations.",
     [Job("c06", "C06", "stable", 8, 12000, 300000), Job("c06", "C06", "nightly", 4, 0, 50000)])

prop("C16", "exploration", "property-based testing with fault injection: generated messages with handles received under generated limits of descriptors",
     "A case is a sequence of 1-5 messages with generated numbers of handles (up to 900), each received with a generated number of free descriptors, in all flavours. "
     "Non-trivial: at least one message for which there are not enough descriptors.",
     [Job("c16", "C16", "stable", 8, 4000, 100000), Job("c16", "C16", "nightly", 2, 0, 10000)])

prop("C15", "exploration", "property-based testing: generated interleavings of polls and abandonments against an exact model of the bytes in the socket",
     "A case is a generated sequence of steps of both sides of a channel or duplex (start send, recv or request; poll; abandon; make the transport fail by a tiny buffer "
     "or a lack of descriptors), with messages of many packets or handles, or a thread per side of which one abandons operations. "
     "Non-trivial: an operation was abandoned or failed after a part of its message had passed.",
     [Job("c15", "C15", "stable", 8, 12000, 200000), Job("c15", "C15", "nightly", 4, 0, 30000)])

prop("C17", "exploration", "property-based testing: generated objects with failing parts, instance counting and descriptor tables as the oracle",
     "A case is a sequence of generated values in which any leaf may fail to be deserialized, with one of 28 kinds of errors, among instance-counted objects and files in all "
     "containers, read from one deserializer or received as messages in all flavours. Non-trivial: at least one value fails.",
     [Job("c17", "C17", "stable", 8, 100000, 2000000), Job("c17", "C17", "nightly", 4, 30000, 400000), Job("c17", "C17", "asan", 4, 10000, 200000),
      Job("c17c", "C17", "stable", 8, 8000, 200000)])

prop("C07", "exploration", "property-based testing: direct calls and calls in child processes compared on generated arguments, with a journal of executions",
     "A case is one of ~60 functions (of all kinds, arities and types), generated arguments, and a way of starting it, whose result, process and number of executions are compared "
     "with those of a direct call. Non-trivial: every case; distinct by the sequence of choices.",
     [Job("c07", "C07", "stable", 8, 2000, 40000), Job("c07", "C07", "nightly", 4, 0, 10000)])

prop("C08", "exploration", "property-based testing with fault injection: generated fates of the child against the expected outcome of join",
     "A case is a child of a generated return type and flavour, with a generated fate (return, panics, exits, signals, crashes, from the function, another thread, an exit handler, "
     "or the parent, at generated moments). Non-trivial: the child does not simply return.",
     [Job("c08", "C08", "stable", 8, 700, 15000), Job("c08", "C08", "nightly", 4, 0, 4000)])

prop("C11", "exploration", "property-based testing: generated histories of calls and copies of callable objects against the plain function with a model of the captured state",
     "A case is one of ~115 callables (functions, lambdas, function pointers; up to 20 parameters; captures by value, mutable and shared reference), created with generated values, possibly "
     "copied between bindings, and a generated history of calls in all ways (some of which panic), copies by serialization, and changes of form (boxed, trait objects, in vectors). Non-trivial: every case; distinct by the sequence of choices.",
     [Job(f"c11p{k}", "C11", "stable", 2, 6000, 150000) for k in range(4)] + [Job(f"c11p{k}", "C11", "nightly", 2, 0, 50000) for k in range(4)])

prop("C12", "exploration", "property-based testing: generated trait objects, static references and function pointers evaluated in several processes at random load addresses, differentially against an equal value in the parent",
     "A case is a generated nested value of trait objects (12 implementations and more), static references, function pointers and callables, sent through 1-5 processes and channels, "
     "looked at in each of them and after coming back. Non-trivial: at least one of the processes was loaded at another address.",
     [Job("c12", "C12", "stable", 8, 6000, 120000), Job("c12", "C12", "nightly", 4, 2000, 40000)])

prop("C13", "exploration", "property-based testing: generated values with Delayed parts, unwrapped in generated orders, with handles compared by the identity of open files and descriptor tables counted",
     "A case is a value with generated plain, delayed, and nested delayed parts with up to 600 handles of 16 kinds, which goes through a serializer, a channel of any flavours, or a child process "
     "(as an argument and a result); its parts are unwrapped or dropped in a generated order. Non-trivial: a delayed part contains a handle.",
     [Job("c13", "C13", "stable", 8, 4000, 80000), Job("c13", "C13", "nightly", 4, 0, 20000)])

prop("C09", "exploration", "property-based testing: generated histories of kills, joins, exits and drops by several threads against a reference model, with kill system calls recorded and delayed through seccomp user notifications",
     "A case is 1-3 children of generated flavours with generated fates, and a generated history of kills through handles, joins, exits, and drops, by threads of the parent, with kill system calls "
     "recorded and delayed (late enough for the child to be reaped and its number reused). Non-trivial: at least one kill.",
     [Job("c09", "C09", "stable", 8, 3000, 60000), Job("c09", "C09", "nightly", 4, 0, 10000)])

prop("C10", "exploration", "property-based testing: generated concurrent spawns whose children report their tables of descriptors, as do programs and children started by these, and immediate detection of ends",
     "A case is 1-5 threads which start 1-3 children each at the same moments, with generated handles, among generated other files, channels in use and programs being started; each child reports its table of "
     "descriptors, and follows a generated plan: start programs and children (with its handles or new ones) which report theirs, receive handles meanwhile, drop its ends while being watched, leave behind processes that "
     "outlive it. Non-trivial: several threads, or a child which does any of that.",
     [Job("c10", "C10", "stable", 8, 1200, 40000), Job("c10", "C10", "nightly", 4, 0, 10000)])

prop("C14", "exploration", "property-based testing with fault injection: cases of other properties repeated while system calls are interrupted (injected EINTR, real signals, stopped children), with their oracles",
     "A case is a generated case of C03, C05, C06, C07, C08, C13 or C17, or an echo between processes, run while a generated share of system calls of this process and its children fails with EINTR (in runs of up to 40), "
     "signals with handlers are delivered to all threads of both processes every 20-600 us, or the child is stopped and continued. Non-trivial: at least one call was interrupted or one signal handled.",
     [Job("c14", "C14", "stable", 8, 900, 40000), Job("c14", "C14", "nightly", 4, 0, 10000)])

prop("C21", "exploration", "property-based testing with fault injection: generated failures of system calls while spawning, in the parent, the newborn process, and the child, and limits of descriptors",
     "A case is 1-4 attempts to start a function, in all flavours, with generated arguments, during each of which a chosen system call of a chosen process (socketpair, clone, sendmsg, epoll_ctl, ioctl; fcntl, execve; any of the first "
     "ones of the child) fails with a chosen error, or the process is killed there, or descriptors run out; then a working one. Descriptors, processes and results are checked after each. Non-trivial: at least one failure occurred.",
     [Job("c21", "C21", "stable", 8, 300, 20000), Job("c21", "C21", "nightly", 4, 0, 5000)])

prop("C20", "exploration", "stateful property-based testing: generated histories of moving, using and dropping endpoints over a changing tree of processes, against a model of queues and holders",
     "A case is a history of 5-90 steps by up to 12 processes: create channels and duplexes of all flavours, send (with other endpoints inside), receive, request, send large messages to a waiting receiver, convert, drop, "
     "move endpoints as arguments, results, in messages, and over control channels, start, end, kill and join processes. Every reception and every end is compared with the model, also that there is none too soon, and at the end everything "
     "left is received and dropped. Non-trivial: at least one endpoint moved to another process.",
     [Job("c20", "C20", "stable", 8, 300, 30000), Job("c20", "C20", "nightly", 4, 0, 8000)])

prop("C18", "exploration", "property-based testing over programs: generated type definitions are compiled and every type round-trips generated values, alone, in containers, as messages and through processes",
     "Each program has 22 generated definitions with derive(Object) (structs and enums of all forms, up to 700 variants, discriminants, generic parameters with bounds, defaults, lifetimes and "
     "constants, recursion, hostile field, variant, type and parameter names, attributes, definitions made by macros). A case is a generated value of one of them or of a container of it, "
     "which is round-tripped, sent as a message, or passed to a child process and back. A program which does not compile is a violation. Some programs are built without the features of the crate. Non-trivial: every case; distinct by the sequence of choices.",
     custom="gen18")

prop("C19", "exploration", "property-based testing over programs: generated functions and lambdas are compiled and called in all ways on generated arguments, compared with plain functions of the same text",
     "Each program has 12 generated #[func] functions (0-20 parameters, hostile names, patterns, attributes, generic parameters with bounds and where clauses, lifetimes and references, async flavours, "
     "visibility, nesting, made by macros, recursive through processes) or lambdas (captures by value, shared and mutable reference). A case is one of them with generated arguments, called directly, through "
     "trait objects, bound argument by argument, copied by serialization, and in child processes. A program which does not compile is a violation. Some programs are built without the features of the crate. Non-trivial: every case; distinct by the sequence of choices.",
     custom="gen19")

prop("C22", "exploration", "property-based testing over programs: generated forms of main are compiled and started with generated names, arguments, environments and streams, with the plain meaning of main as the oracle",
     "Each program has another form of entry point (11 return types, sync and async, attributes, visibilities, names in scope, made by macros). A case is one start of it: any name, arguments and variables (also not UTF-8), "
     "executable file (also one that is moved or deleted meanwhile), a history of changes of its environment (variables, directory, umask, signals, limits) with children and grandchildren which look at theirs, write, or read, "
     "and an end (return, error, code, panic, exit). Non-trivial: at least one child, or an unusual name; distinct by the sequence of choices.",
     custom="gen22")
