"""The properties, as written to properties.jsonl and MANIFEST.json by gen.py."""
P = []
ENG = 'engine/src/'


def p(id, title, statement, over, text, why, files, mech, tech, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, text=text, why=' '.join(why.split()),
                  files=files, mech=mech, tech=tech, note=' '.join(note.split()), state=state, observe=observe))


AI = 'path-sensitive abstract interpretation of MIR with loop fixpoints, in-house; no solver, no execution'
ENOTE = '''Covers every path of the dispatcher for every command, argument count, key type and store state, loops by fixpoint; sound up to the library
models, the canonical forms being complete for the values the code builds, and paths reported as undecided (none on the current tree).'''

p('C01', 'Write commands store and answer the documented value',
  '''A successful increment, decrement, increment by, decrement by, set or append leaves under its key exactly the documented value: the old number
  plus or minus one or the argument (starting at zero when the key is missing), the given arguments themselves for set, and the old content followed by all
  given arguments in order for append (starting empty when the key is missing). Its response carries the stored value and its type.''',
  ['inputs', 'histories'], 'every argument list, key type and previously stored value or missing key',
  '''The unit tests send a handful of literal arguments to each command; the value left behind depends on every argument count, key type and previous value.''',
  [ENG + 'command/impl/', ENG + 'state/'],
  [('per-command update and response code', ENG + 'command/impl/*.rs'), ('typed access to values', ENG + 'state/mod.rs')],
  AI, ENOTE)
p('C02', 'One complete response on success, no output on failure',
  '''A command that succeeds appends exactly one response to the output, correctly framed: its type, then a length or count that is the number of bytes or
  items that follow, then that content. A command that fails appends nothing, and neither disturbs what the output already held.''',
  ['inputs', 'histories'], 'every command, argument list and stored value',
  '''Tests compare whole responses for a few short literal values; framing must be right for every value, type and size, or the stream desynchronises.''',
  [ENG + 'command/response/', ENG + 'command/impl/'],
  [('response writers', ENG + 'command/response/'), ('dispatch', ENG + 'hop.rs')], AI, ENOTE)
p('C03', 'A failed command changes nothing',
  '''A command that returns an error leaves every stored key with exactly the value it had before, and adds and removes no key.''',
  ['inputs', 'histories'], 'every command, every error path, every argument list and stored value',
  '''Tests check the error code on a few failing inputs and hardly ever the store afterwards; the error can arise after an entry was created or partly written.''',
  [ENG + 'command/impl/', ENG + 'state/mod.rs'],
  [('validate before mutate', ENG + 'command/impl/*.rs'), ('entry creation', ENG + 'state/mod.rs')], AI, ENOTE)
p('C04', 'Read-only commands never change stored data',
  '''Get, exists, is, type, length, keys, echo and stats never add, remove or change any stored key or value, whether they succeed or fail.''',
  ['inputs', 'histories'], 'every argument list, key type and stored value',
  '''Tests look at the response of a read, not at the store after it; a read that creates a default for a missing key answers the same.''',
  [ENG + 'command/impl/', ENG + 'state/mod.rs'], [('read paths', ENG + 'command/impl/{get,exists,is,type,length,keys,echo,stats}.rs')], AI, ENOTE)
p('C05', 'Only set changes the type of a stored value',
  '''No command but set turns the value stored under a key into a value of another type. A command that works on one type never succeeds on a stored value
  of another type: it fails and leaves the value alone.''',
  ['inputs', 'histories'], 'every command, explicit key type and stored type',
  '''The tests pair each command with one or two wrong types out of the 8 x 9 combinations of stored and requested type.''',
  [ENG + 'command/impl/', ENG + 'state/mod.rs', ENG + 'state/value.rs'], [('typed value references', ENG + 'state/mod.rs')], AI, ENOTE)
p('C06', 'Key type: explicit first, then stored, then the default',
  '''A typed command works on the key type given in the request; without one it works on the type of the value stored under the key; and when the key is missing
  it works on the default type of the command (bytes for set, append and length, integer for increment and decrement, map for keys). Increment by and decrement
  by read their amount as a float only when the float key type is given, and as an integer otherwise.''',
  ['inputs', 'histories'], 'every command, key type and stored type or missing key',
  '''The order of precedence only shows when the three disagree; tests cover a few of those combinations.''',
  [ENG + 'command/impl/'], [('key type resolution', ENG + 'command/impl/*.rs')], AI, ENOTE)
p('C07', 'Each command refuses exactly the requests it should, with the right error',
  '''A command returns an error only under the condition that error documents: a key is unspecified only if no argument or an empty key was given, a key is
  non-existent only if it is missing from the store, and key type and argument errors only for requests whose key type or arguments the command cannot use. And
  it succeeds only if none of these conditions holds: enough arguments, non-empty keys, a key type exactly where one is allowed or required, and arguments that
  decode as their type.''',
  ['inputs', 'histories'], 'every command, argument count, argument length, key type and stored type',
  '''The conditions multiply: command, number and length of arguments, key type and stored type. Tests sample a few failing requests per command.''',
  [ENG + 'command/impl/', ENG + 'command/request/mod.rs'],
  [('validation', ENG + 'command/impl/*.rs'), ('argument access and decoding', ENG + 'command/request/mod.rs')], AI, ENOTE)
p('C08', 'Each write to a key is one atomic step',
  '''A command that changes a key does so in one step: the value it read, the value it stores and the value it answers with belong to one exclusive hold of
  that key, so no concurrent command sees a half-done change and no concurrent update is lost. A command that reads a key answers from one look at it.''',
  ['schedules', 'histories'], 'every interleaving of commands on the same key',
  '''Tests run one command at a time; a lost update needs another task to get between the read and the write.''',
  [ENG + 'command/impl/', ENG + 'state/mod.rs'],
  [('read, change and store under one entry guard', ENG + 'command/impl/*.rs'), ('entry or insert', ENG + 'state/mod.rs')],
  AI + '; guard lifetimes followed as events on each path', ENOTE)
p('C09', 'No command deadlocks on the tables of the engine',
  '''No command takes a lock on a table while it still holds a lock on the same table (unless it only reads under both), and none leaves a lock held when it returns; so commands always finish,
  whichever keys share a shard and whatever other commands run.''',
  ['schedules', 'inputs'], 'every command, key pair and interleaving',
  '''Self-deadlock depends on two keys hashing into one shard, or on a second task between two locks; a test practically never meets it, and would hang if it did.''',
  [ENG + 'command/impl/', ENG + 'state/mod.rs', ENG + 'hop.rs'],
  [('entry guards', ENG + 'state/mod.rs')], AI + '; guard lifetimes followed as events on each path', ENOTE)
p('C10', 'Delete removes just its key; rename moves a value and overwrites nothing',
  '''A successful delete removes the given key, leaves every other key alone and answers with the key. A successful rename leaves the old key missing and the new
  key with exactly the value the old one had, answers with the new key, and never replaces a value that was stored under the new key.''',
  ['inputs', 'schedules', 'histories'], 'every pair of keys, stored values and interleaving',
  '''Tests rename one literal key to another in an otherwise empty store, with nothing running at the same time.''',
  [ENG + 'command/impl/delete.rs', ENG + 'command/impl/rename.rs', ENG + 'state/mod.rs'],
  [('remove', ENG + 'command/impl/delete.rs'), ('move under the new key', ENG + 'command/impl/rename.rs')], AI, ENOTE)
p('C12', 'Every dispatched command is counted once, as what it was',
  '''Every command dispatched to the engine increments exactly one command counter exactly once: commands successful if it returned success, commands errored if it
  returned an error.''',
  ['inputs', 'histories'], 'every command and every outcome of it',
  '''Tests of the counters dispatch one or two commands; each early return of each command is a place where the count can be wrong.''',
  [ENG + 'hop.rs', ENG + 'metrics.rs', ENG + 'command/impl/'], [('count at the end of dispatch', ENG + 'hop.rs')], AI, ENOTE)
p('C13', 'Stats reports every counter under its name with its value',
  '''Stats answers a map with, for each metric that has been counted, the name of that metric and the value of its counter at the time of reading, and nothing else. No
  two metrics share a name.''',
  ['histories', 'inputs'], 'every state of the counters',
  '''The counters that exist and their values depend on everything that ran before; the test looks at one state.''',
  [ENG + 'command/impl/stats.rs', ENG + 'metrics.rs'], [('stats', ENG + 'command/impl/stats.rs'), ('names', ENG + 'metrics.rs')], AI, ENOTE)
p('C16', 'Reads answer with what is stored',
  '''Get answers the stored value with its type; length answers the number of bytes, characters of a string, or items it holds; keys answers all keys
  of the stored map; type answers the identifier of the stored type; echo answers the arguments it was sent, in order.''',
  ['inputs', 'histories'], 'every stored value and argument list',
  '''Tests read back a few short literal values of some of the types.''',
  [ENG + 'command/impl/', ENG + 'command/response/mod.rs'], [('read commands', ENG + 'command/impl/{get,length,keys,type,echo}.rs')], AI, ENOTE)
p('C17', 'Exists and is answer for every key given',
  '''Exists answers true exactly when every key given exists. Is answers true exactly when every key given exists and holds a value of the requested type.''',
  ['inputs', 'histories'], 'every list of keys and every state of the store under them',
  '''The answer depends on each of up to 255 keys separately; tests try one or two keys in one state.''',
  [ENG + 'command/impl/exists.rs', ENG + 'command/impl/is.rs', ENG + 'state/value.rs'],
  [('look at each key', ENG + 'command/impl/{exists,is}.rs')], AI + '; besides the loop, all paths for exactly 1, 2 and 3 keys', ENOTE)
p('C18', 'No request makes a command panic',
  '''No command, key type, argument list or stored value makes the engine panic while it runs the command: no failed index, unwrap, assertion, arithmetic overflow or
  explicit panic is reachable.''',
  ['inputs', 'histories'], 'every request and stored value',
  '''A panic needs the one input that reaches it, such as an empty argument, a number at its limit or a value that grew over many commands.''',
  [ENG + 'command/', ENG + 'state/', ENG + 'hop.rs'],
  [('argument decoding', ENG + 'command/request/mod.rs'), ('response writers', ENG + 'command/response/mod.rs')], AI,
  ENOTE + ''' Sums of lengths of values in memory are assumed to fit their integer type.''')
p('C14', 'Each session has its own identifier and is counted at start and end',
  '''Every session is stored under an identifier no other session has or is given at the same time, carries that identifier and the token of its client, and is
  counted as started exactly once. Removing a session removes that session and no other, answers whether it was there, and counts it as ended exactly when it was.''',
  ['schedules', 'histories'], 'every interleaving of sessions starting and ending',
  '''Tests start one session at a time; identifiers collide only when two start at once.''',
  [ENG + 'session/', ENG + 'metrics.rs'], [('session table', ENG + 'session/mod.rs')],
  AI + '; each method of the session manager as a step on an abstract table', ENOTE.replace('dispatcher for every command, argument count, key type and store state', 'session manager methods for any table and counter'))
p('C15', 'A subscription lasts until it is removed and is answered truthfully',
  '''Subscribing a session to a key lists the session under the key and the key under the session; unsubscribing removes both; ending a session removes all
  its subscriptions and nobody else's. Each of these answers whether it changed anything. Subscribing again, or asking for a subscription, leaves the one that is there as it is. The two tables never disagree, also when sessions subscribe, unsubscribe and end at the same
  time, and none of it can deadlock.''',
  ['schedules', 'histories'], 'every order and interleaving of subscribing, unsubscribing and ending',
  '''The two tables only diverge when two calls interleave or when some, not all, of the subscriptions of a session were removed before.''',
  [ENG + 'pubsub/', ENG + 'session/'], [('subscription tables', ENG + 'pubsub/mod.rs')],
  AI + '; each method of the subscription manager as a step on two abstract tables, with the order its locks are taken in',
  ENOTE.replace('dispatcher for every command, argument count, key type and store state', 'subscription manager methods for any tables'))
p('W01', 'Identifiers and names on the wire convert back to what they stand for',
  '''Each command, key type, error and other identifier that travels as a byte decodes to exactly the item it encodes; every other byte is refused; no two items share one. Each command
  identifier leaves the top bit free. The name of each command converts back to that command, and no other text converts to a command.''',
  ['inputs'], 'every byte and every name',
  '''The tables for encoding and decoding are written out separately, item by item; tests check some of the items.''',
  [ENG + 'command/', ENG + 'state/mod.rs'], [('identifier tables', ENG + 'command/command_id.rs'), ('key types', ENG + 'state/mod.rs')],
  AI, 'Covers all 256 bytes of every local type decoded from a byte, and every command name. Text is compared with the names as constants.')
p('W03', 'The request parser answers what the bytes say, however they arrive',
  '''Fed any bytes, the request parser answers with exactly the request they spell: its command, key type, number of arguments and the bytes of each argument, wherever
  they were split over reads. It waits for more exactly while the request is incomplete, refuses exactly an unknown command or key type, never panics, and
  after a request or an error is ready for the next request.''',
  ['inputs', 'schedules'], 'every byte sequence and every way of splitting it',
  '''The place where a read ends, the number and the lengths of the arguments combine without limit; tests feed a few whole requests.''',
  [ENG + 'command/request/'], [('parser', ENG + 'command/request/context.rs'), ('accessors', ENG + 'command/request/mod.rs')],
  AI + '; the parser loop walked pass by pass and by an inductive step from the state after any number of arguments',
  '''Every path for up to three arguments whole and resumed after the first wait, and one inductive step for any number of them. Sound up to the library models; bytes beyond the first
  resumption are covered by the step, not enumerated.''')
p('W02', 'A request built argument by argument is written as exactly those arguments',
  '''A request built from any arguments answers, for each index, exactly the argument put in there, whichever way it was put in, and says how many there are; its key is the first one, if its command works on keys. It is
  written as its command (with the top bit set when a key type goes with it), the key type, and, for a command that takes arguments, their number and each one as length and bytes. A
  refused argument leaves what was built before as it was, and a request taken back into a builder keeps its arguments.''',
  ['inputs', 'histories'], 'every sequence of arguments and lengths',
  '''What is built depends on the number, lengths and order of arguments, including refused ones; tests build a few short requests.''',
  [ENG + 'command/request/'], [('builder', ENG + 'command/request/builder.rs'), ('accessors and writer', ENG + 'command/request/mod.rs')],
  AI + '; builder state by induction over the arguments added', '''The builder from its start for every sequence of up to three calls, and from any state by induction. Sound up
  to the library models.''')
p('W06', 'The request builder refuses exactly what does not fit',
  '''The builder refuses an argument only when it is empty, when the command takes none, or when 255 are there already; it refuses a value only when it is empty or its items do not fit. It
  accepts everything else and never panics.''',
  ['inputs', 'histories'], 'every argument, value and number of arguments already there',
  '''The limits are reached only by the one count or length at the edge; tests stay far away from most of them.''',
  [ENG + 'command/request/builder.rs'], [('limits', ENG + 'command/request/builder.rs')], AI, '''Every method of the builder in any state. Empty items within sets and maps are not claimed.
  Sound up to the library models.''')
p('W04', 'A response is written as its one frame',
  '''Every response is written, however it is written out, as exactly one frame: its type, then the length or number of items where the type has one, then each
  item with its own length or type where it has one; the frame is added after what was there before.''',
  ['inputs'], 'every response value',
  '''Lengths and counts take every value and items nest; tests compare a few short responses.''',
  [ENG + 'command/response/mod.rs'], [('writers', ENG + 'command/response/mod.rs')], AI, 'Every kind of response with any content. Sound up to the library models.')
p('W05', 'The response decoder answers what the bytes say, however they arrive',
  '''Fed the bytes of a frame, the response decoder answers the value they spell, wherever they were split over reads. While the frame is incomplete it asks for at least one and never
  for more than the missing bytes; it refuses exactly an unknown type or error and text that is not UTF-8, never panics, and after a response or an error is ready for
  the next one.''',
  ['inputs', 'schedules'], 'every byte sequence and every way of splitting it',
  '''Where a read ends and the type, number and length of items combine without limit; tests feed a few whole frames and few splits.''',
  [ENG + 'command/response/'], [('decoder', ENG + 'command/response/context.rs')], AI + '; the decoder walked pass by pass and by an inductive step from any number of items',
  '''Every path for frames whole and resumed after each wait for few items, and one inductive step for any number. Sets and maps whose frame repeats an item are not
  claimed. Sound up to the library models.''')
CL = 'client/src/'
CNOTE = '''Every path of every backend operation, whatever the arguments, connection and answers; loops over arguments by fixpoint. Sound up to the library models and the models of
the request builder and response decoder (claimed on their own as W02, W05 and W06).'''
p('B01', 'A client operation sends its one request and returns the answer to it',
  '''Each operation of a client, in memory or through a server, sends exactly the one request it stands for: that command, the key type the operation names or was given, and its arguments
  whole and in the order given. It sends nothing when an argument or the kind of value is refused. What it returns is the value in the response to that request; it gives
  up only when something went wrong.''',
  ['inputs'], 'every operation, every argument and every answer',
  '''The two backends build the requests apart from the engine; tests send a few keys and never compare request by request what a server gets.''',
  [CL + 'backend/'], [('requests in memory', CL + 'backend/memory.rs'), ('requests to a server', CL + 'backend/server.rs')],
  AI + '; the request sent compared with a table of the operations', CNOTE)
p('B03', 'Responses from a server are paired with their requests',
  '''When a server backend is shared, each request is written whole and its response read whole before the next request is written, so that each operation gets the response to its own
  request. No byte of a response is skipped, read twice, or read from what follows it.''',
  ['schedules', 'inputs'], 'every interleaving of operations on one connection and every way responses are split over reads',
  '''Mixing up responses takes two operations at once, and losing bytes takes a response that arrives in pieces; the tests have no server.''',
  [CL + 'backend/server.rs'], [('stream lock, request writing and response reading', CL + 'backend/server.rs')],
  AI + '; typestate of the connection over the recorded lock, write and read events',
  CNOTE + ' Responses of up to five reads. Operations whose future is dropped half-way are not claimed.')
p('B04', 'A client returns every failure as an error',
  '''When an argument is refused, the engine answers with an error, the connection fails, or the response is malformed, an error, or not of the kind asked for, the operation of the
  backend returns an error that carries the reason. It never reports success, and with a server it never panics.''',
  ['faults', 'inputs'], 'every operation and every failure of arguments, engine, connection and response',
  '''Each operation has its own handling of each failure; tests exercise hardly any of them.''',
  [CL + 'backend/'], [('error mapping', CL + 'backend/{memory,server}.rs')], AI, CNOTE)
p('B02', 'A client request performs its one operation with what it was given',
  '''However a request is built on a client, awaiting it performs exactly one operation, the one it is named after, with the keys, key type and value it was given, also when it has to be
  polled many times. It returns what the operation answered, or its error. A list of keys is refused exactly when it is empty or longer than 255.''',
  ['inputs', 'schedules'], 'every way to build a request, every key and value, every answer',
  '''There are over fifty ways to build a request, each with its own future; the tests await hardly any of them, and never one that is pending.''',
  [CL + 'request/', CL + 'lib.rs'], [('requests', CL + 'request/'), ('client', CL + 'lib.rs')], AI + '; each way to build a request compared with a table',
  '''All 62 ways to build a request with any arguments. Requests are modelled as pending at most once. Results of another kind than the operation is
  documented to answer are only required not to be taken for success. Sound up to the library models.''')
SNOTE = '''Every path of up to %s, whatever the bytes. The task of a connection is found from main, wherever its code is. Sound up to the library models and those of
the request parser, the dispatcher and the response writer (claimed on their own).'''
p('B05', 'A server answers every request of a connection, in order',
  '''However the bytes of a connection arrive, each complete request among them is executed once and in order, and its response, or the error for one that fails or cannot be parsed, is
  written whole and in order before the server waits for more. No byte of a request is lost or used twice. The server gives up a connection only when it ends or fails, and never panics while
  serving it.''',
  ['inputs', 'schedules', 'faults'], 'every sequence of requests and bytes and every way of splitting it over reads',
  '''The server has no tests; losing or delaying a request takes several of them in one read, or one spread over many.''',
  ['server/src/main.rs'], [('connection loop', 'server/src/main.rs')], AI + '; typestate of the unconsumed bytes and the responses due along each path', SNOTE % 'three reads and four requests')
p('B06', 'A server serves every connection it accepts, and keeps accepting',
  '''A server listens on the HOST and PORT in its environment, or on every address and port 46733 where they are unset or unusable. Each connection it accepts is served by a task of its own on the one engine
  all share, without keeping others waiting. A connection that could not be accepted never ends the server.''',
  ['faults', 'schedules'], 'every sequence of accepted and failed connections',
  '''The server has no tests, and failures to accept only come about when a client or the system misbehaves.''',
  ['server/src/main.rs'], [('accept loop', 'server/src/main.rs')], AI, SNOTE % 'three connections')
LNOTE = '''Every path, with loops by fixpoint, for %s. %s Sound up to the library models and those of the request, the builder and the backends (claimed on their own).'''
CLI = 'cli/lib/src/'
p('L02', 'A line of input is read as the request it stands for',
  '''The text before the first space of a line names a command, optionally followed by a colon and the name of a key type; anything else is refused with the name it gave, or as
  no command when it is empty. The words after it become the arguments of the request, in order and complete: keys as they are, and the others as they are too, unless the key type is
  boolean, float or integer, when each is the value it spells. A line is refused for a missing key, an argument that is not of the key type, a map whose last key has no value, or
  what the request builder refuses, and for nothing else.''',
  ['inputs'], 'every line: every first word and any number of words after it',
  '''The tests read four lines. Which words are kept depends on the command, the key type and the number of words.''',
  [CLI + 'parse.rs'], [('parser', CLI + 'parse.rs')], AI + '; first words decided by constant evaluation of the path conditions',
  LNOTE % ('any line', 'First words are decided for all 16 commands with all 12 ways to write the key type, 27 other words, and every constant the code compares with.'))
p('L01', 'A line makes the CLI perform the one operation it stands for',
  '''Processing a line performs exactly one operation on the client: the one named by its command, with its keys, and with the key type and value it gives (one, for a typed increment or
  decrement). When the line cannot be read, or lacks a key, a key type or an argument that is needed, or has a key type that the command does not take, nothing is performed
  and the answer says which. An echo of nothing is answered without an operation. When the operation fails, the answer is the reason, or the error of the backend.''',
  ['inputs', 'faults'], 'every command, key type, argument list, and failure of the operation, for both backends',
  '''The processing has no tests at all; each of the commands translates its key type and arguments by itself.''',
  [CLI + 'process.rs'], [('processing', CLI + 'process.rs')], AI + '; each command compared with a table of operations',
  LNOTE % ('every command, key type and argument list', 'Reasons are matched by a word of the message.'))
p('L03', 'The CLI prints results in full',
  '''What the CLI answers a line with is the result of the operation: texts as they are; bytes as text, what is not text replaced; each item of a list or set, and each entry of a map as
  key=value, on a line of its own, with no line break at the end; numbers in decimal; booleans as true or false; key types by name; and the four statistics with the numbers the
  server gave, or 0 for a missing one.''',
  ['inputs'], 'every command and every value a backend can answer with',
  '''The printing has no tests; that all of a value is printed, and nothing lost at its ends, depends on the value.''',
  [CLI + 'process.rs', CLI + 'print.rs', CL + 'model.rs'], [('printing', CLI + 'print.rs'), ('processing', CLI + 'process.rs')], AI,
  LNOTE % ('every command and kind of value', 'Values of a kind other than the one asked for are left out where the client cannot return them.'))
p('T01', 'A timer measures from its start to its stop',
  '''A timer starts once and stops once until it is reset: starting it says whether it was not started yet, stopping it answers only while it is running, and both leave it alone otherwise.
  The duration of a stopped timer is the time from the reading of a clock that is never set back at its start to that at its stop, and there is none before. Resetting makes it as new. No
  reading of the clock makes it panic.''',
  ['histories', 'inputs'], 'every sequence of operations on a timer and every reading of the clock',
  '''The tests call each operation a few times in the usual order; what an operation leaves alone shows only in later ones.''',
  ['lib/timer/src/lib.rs'], [('timer', 'lib/timer/src/lib.rs')], AI + '; typestate: the states of a timer enumerated to closure',
  '''Every state a timer can get into, by breadth-first search over all operations. Sound up to the library models; the clocks named in the evidence are taken never to go back.''')
p('M01', 'Metrics count every event once and read back what was counted',
  '''Incrementing a counter adds exactly one to it, in one step, starting from one, and setting a gauge leaves exactly the value given; neither touches anything else. Readers, snapshots and
  writers of the same metrics agree on which is which, and a counter or gauge that was never written reads as nothing. Writers and readers work, and say they are valid, exactly while the
  metrics they were made from are there. A snapshot holds all counters and gauges as they were.''',
  ['inputs', 'histories', 'schedules'], 'every key, value, and previous content, and all concurrent writers',
  '''The tests count a few times from one thread; increments lost between writers need them to overlap.''',
  ['lib/metrics/src/lib.rs'], [('metrics', 'lib/metrics/src/lib.rs')], AI + '; accesses to the tables checked for atomicity on every path',
  '''Every path of every method from any state. A counter at 2^64 - 1 is left out. Sound up to the library models.''')
p('V01', 'Values and the store answer what they hold',
  '''A value says which of the eight types it is, gives access to its content as that type and as no other, and is made of the type of what it is made from. Looking up, inserting and removing a
  key of the store each act on the entry of that key alone, in one step, and answer what was there; inserting a default evaluates and stores it only for a missing key. Clones of a store are the
  same store; a new one is empty. Only keys that are empty or internal are refused.''',
  ['inputs', 'histories', 'schedules'], 'every value, key and previous content, with other users of the store in between',
  '''The tests use one value of each type and one thread; that a lookup and an insertion are one step shows only when another user comes in between.''',
  [ENG + 'state/'], [('values', ENG + 'state/value.rs'), ('store', ENG + 'state/mod.rs')], AI, '''Every method of both types in any state. Empty and internal keys are refused by design, with a
  panic. Sound up to the library models.''')
p('H01', 'An engine is configured as asked, and is one for all its handles',
  '''An engine has exactly the configuration its builder was given, in whatever order, and by default pubsub enabled and no limit to sessions. Its commands, its sessions and the readers of its
  metrics all use the one set of metrics it keeps alive. It starts empty, and all clones of its handle share its state, sessions, subscriptions and metrics.''',
  ['inputs', 'histories'], 'every way to make an engine, and every configuration',
  '''The tests check no more than that an engine can be made. Parts that belong to another engine work alone, and differ only when used together.''',
  [ENG + 'hop.rs', ENG + 'session/manager.rs', ENG + 'metrics.rs'], [('construction', ENG + 'hop.rs')], AI + '; reachability over strong and weak references',
  '''All ways to make an engine with symbolic configurations. That the configured limits are enforced is not claimed: nothing in the engine reads them. Sound up to the library models.''')
p('B08', 'No operation is answered with what another left behind',
  '''When an operation over a server ends before its whole response has been read, because it failed or because its future was dropped while it waited, later operations on that connection
  fail instead of taking what is left for their own response. An operation that sent nothing, or whose response was read whole, whatever it says, leaves the connection as usable as before, and
  none leaves a lock held.''',
  ['histories', 'crash points', 'schedules'], 'every operation, every failure and every place where its future can be dropped, and what follows',
  '''A timeout around an operation drops its future at a place that depends on timing; what goes wrong is the answer to another operation, later. No test drops one.''',
  [CL + 'backend/server.rs'], [('reading the response', CL + 'backend/server.rs')],
  AI + '; each path to an end, including the drop edges of every await, followed by a later operation on the state it leaves', CNOTE)
p('B07', 'A client is connected to the one server it was given',
  '''Connecting makes a connection to the address given, and the client reads from and writes to that one connection. When it cannot be made, the answer is the error. Clones of a client
  share its backend. A client in memory has an engine of its own.''',
  ['faults', 'inputs'], 'every address and every failure to connect',
  '''No test connects a client to a server.''',
  [CL + 'lib.rs', CL + 'backend/'], [('connecting', CL + 'backend/server.rs'), ('clients', CL + 'lib.rs')], AI, 'Every path of connecting. Sound up to the library models.')
p('L04', 'The CLI answers every line it is given, until its input ends',
  '''The program of the CLI processes each line it reads once, without its line break or anything of other lines, in order and on one client. It writes the whole answer, or why there is none, and
  a line break, and has written all of it out before it waits for the next line. It ends when its input does, or when reading or writing fails, and for no other reason.''',
  ['inputs', 'faults'], 'every sequence of lines, of failures to process them, and of failures to read or write',
  '''The program has no tests; what a line leaves behind shows with the next one.''',
  ['cli/bin/src/main.rs'], [('main loop', 'cli/bin/src/main.rs')], AI + '; typestate of what was read and is due along each path',
  '''Every path of up to three lines. Sound up to the library models and those of the processing of a line (claimed on its own).''')
p('E01', 'An error says what went wrong, and keeps what it was made from',
  '''Every error of the engine, the builder, the clients and the CLI, whatever it holds, is shown without failing as text that is not empty. No two kinds of error of one type are shown as the
  same text, nor are two errors of a kind that hold different things: everything an error holds is in its text, unless the error names it as its source. An error that holds another error (something that implements Error) names that one as its source, and the source an error names is a part of it; an error made from another one keeps it, as the kind that is for it.''',
  ['inputs'], 'every error type, kind and content',
  '''No test shows an error; which kinds there are and what they hold is spread over the crates, and an error shown as another misleads only the person who gets it.''',
  [ENG + 'command/error.rs', ENG + 'command/request/builder.rs', CL + 'backend/', CL + 'request/mod.rs', 'cli/lib/src/parse.rs', 'cli/lib/src/process.rs'],
  [('texts of errors', ENG + 'command/error.rs'), ('errors of the clients', CL + 'backend/'), ('errors of the CLI', 'cli/lib/src/')],
  AI + '; the texts of all kinds and contents compared pairwise', '''Every kind of every error type that can be shown, contents symbolic or enumerated. How types from elsewhere are shown is
  taken to tell their values apart. Sound up to the library models.''')
p('V02', 'Copies are the same, and comparisons tell apart what differs',
  '''A clone of anything in the workspace that can be cloned holds what its original holds. Two values of a type that can be compared are equal exactly when they are of the same kind and
  everything they hold is equal. Where there is an order, it finds equal exactly the equal ones and answers the same from either side.''',
  ['inputs'], 'every type that can be cloned or compared, and all its values',
  '''The tests assert that the traits are there, not what they do. A copy that leaves something out, or a comparison that overlooks something, shows only with values that differ just there.''',
  [ENG, CL, 'lib/'], [('identifiers', ENG + 'command/command_id.rs'), ('requests and builders', ENG + 'command/request/'), ('handles and snapshots', 'lib/metrics/src/lib.rs')],
  AI + '; pairwise over the kinds of values', '''All implementations of Clone, PartialEq, Ord and PartialOrd in the workspace, derived ones included, contents symbolic. What types from elsewhere
  do is modelled. Hashing is not covered beyond equality being exact.''')
p('P01', 'A subscription is one channel of its own',
  '''A subscription holds the two ends of one channel that no other subscription has, and hands out just these. Closing it closes that channel and no other; asking for an end closes nothing.''',
  ['inputs', 'histories'], 'every way to make, ask and close a subscription',
  '''One test sends to a closed subscription; that what is sent is received by the right one takes two.''',
  [ENG + 'pubsub/mod.rs'], [('ends', ENG + 'pubsub/mod.rs')], AI, 'Every path of every method. Sound up to the model of the channels.')
