NT = "The unit tests run a few fixed statements; "
P("C01", "Key-value statements behave like a finite map",
  "After any sequence of set, try_set, upd and del statements, every key reads (get, try_get, ex, type) exactly as in a finite map updated in that order: last written value and type, writes to one key never affect another, try_set never overwrites a visible entry, upd and get of an absent key are key errors that change nothing, del reports whether a visible entry was removed.",
  ["histories", "inputs"], "every sequence of statements, every pair of keys (equal or different) and every value",
  NT + "no test mixes these statements over several keys, or checks that a refused statement leaves the state unchanged.",
  [HS, IN], [("storage operations on the key-value map", HS), ("statement dispatch", IN)], ["interpreter responses"], "Differential check against a reference map.", [("value map", "stored values with optional expiry", HS), ("expiring keys", "keys that have a lifetime", HS)])
P("C02", "An expired entry is never visible",
  "Once the clock has passed the instant an entry's lifetime ends, every statement behaves as if the entry did not exist (reads say absent, upd and collection statements are key errors, try_set creates a new entry, del answers false); up to and including that instant the entry is fully visible with its value. This does not depend on whether or when background removal has run.",
  ["histories", "inputs"], "every lifetime, every clock reading, every statement kind and stored value kind, removal having run or not",
  NT + "the expiry tests sleep for a second or two and look at one statement; the boundary instant and most statement kinds are never reached.",
  [HS, IN], [("expiry test on each access", HS), ("statement dispatch", IN)], ["interpreter responses"], "The clock is symbolic (nanosecond precision).", [("expiry instant", "end of the entry's lifetime", HS)])
P("C03", "Expiry bookkeeping agrees with the stored entries",
  "A removal step removes only entries whose lifetime has ended and reports how many it removed; removal repeated often enough removes every expired entry; and keys that were deleted, overwritten without a lifetime, or given a new lifetime are never removed for their former lifetime and never block or corrupt a removal step, whatever random keys it samples.",
  ["histories", "inputs"], "every history of writes, deletions, lifetime changes and removal steps, every clock, every random draw",
  NT + "removal samples random keys, so a test sees one draw; the histories that leave stale bookkeeping need several statements in a particular order.",
  [HS, ME, MX], [("set of expiring keys and random removal", HS)], ["interpreter responses", "number of stored entries"], "Random draws and the clock are symbolic.", [("expiring keys", "keys that have a lifetime", HS)])
P("C04", "Lifetimes mean what the client asked for",
  "For every 64-bit lifetime, a statement giving an entry that lifetime either succeeds, the entry then being visible exactly that many seconds and reporting the remaining whole seconds, or is refused with an error and changes nothing; it never panics and never truncates the lifetime. Writing without a lifetime makes an entry permanent, and collection statements keep the lifetime their entry has.",
  ["inputs", "histories"], "every 64-bit lifetime, every clock reading, each of the statements that set, replace or keep a lifetime",
  NT + "only small lifetimes are used, and the remaining lifetime is never compared with the clock.",
  [HS, IN], [("expiry computed from the clock", HS), ("lifetime statement", IN)], ["interpreter responses"], "Lifetimes and clock are symbolic 64-bit values.")
P("C05", "Vector statements behave like a typed sequence",
  "After any sequence of vpush, vset, vpop, vget and vlen on a vector, its elements and length are those of a sequence updated in that order; any index at or beyond the length is an index error, popping an empty vector yields null, and an element of another type is a type error; refused statements change nothing.",
  ["histories", "inputs"], "every sequence of vector statements, every 64-bit index, every element and element type",
  NT + "indices at and far beyond the end, empty vectors and refused writes in the middle of a history are not combined.",
  [TY, IN, HS], [("typed vector", TY), ("vector statements", IN)], ["interpreter responses"], "Differential check against a reference sequence.")
P("C06", "Map statements behave like a typed finite map",
  "After any sequence of mset, mget, mex, mdel and mlen on a map, its entries are those of a finite map updated in that order, with integer and string keys never confused; reading a missing map key is an index error; keys or values of another type are type errors; refused statements change nothing.",
  ["histories", "inputs"], "every sequence of map statements, equal and different keys, both key types, every value type, any iteration order",
  NT + "overwriting, deleting and re-adding the same map key and refused writes are not combined.",
  [TY, IN, HS], [("typed map", TY), ("map statements", IN)], ["interpreter responses"], "Differential check against a reference map.")
P("C07", "Collections hold only values of their declared type",
  "Whatever values, indices and map keys statements supply, a stored vector or map only ever contains elements (and keys) of its declared types, no collection is stored inside another, and a statement for one kind of value applied to another kind is a type error that changes nothing.",
  ["inputs", "histories"], "every stored kind and element type, every statement kind, every supplied value kind",
  NT + "only a handful of the combinations of stored type, statement and supplied type are tried.",
  [TY, IN], [("element type checks", TY), ("type checks in collection statements", IN)], ["interpreter responses"], "All combinations of kinds are explored.")
P("C08", "Authorization is checked for the whole request first",
  "A request containing a statement its sender may not run (a change without write or admin rights, a shutdown without admin rights) is refused with an authorization error and no statement of it takes effect, wherever that statement stands; reads are allowed to every authorized user, and a request whose statements are all permitted is never refused for authorization.",
  ["inputs", "programs"], "every request of up to the bound's number of statements of every kind, for every authorization level",
  NT + "authorization tests use single statements, so whether earlier statements of a refused request took effect is never seen.",
  [IN, AUTH], [("authorization of a whole request", IN)], ["interpreter responses", "stored values"], "All statement kinds and levels are explored.")
P("C09", "Statements of a request run in order and stop at an error",
  "The statements of one request take effect in the order written; the response is that of the last statement, or the error of the first failing one, after which no later statement of the request takes effect while earlier ones remain in effect; a request without statements answers null and changes nothing.",
  ["programs", "inputs"], "every request of up to the bound's number of statements, failing at any position",
  NT + "multi-statement requests with a failing statement in the middle are not tested.",
  [IN], [("statement loop", IN)], ["interpreter responses", "stored values"], "Differential check against a reference interpreter.")
P("C10", "Any command text is answered, and tokens lose nothing",
  "Reading a command never panics or loops: every text yields statements or an error of the syntax or type kind. Until the first lexical error the tokens partition the text in order, each token's text standing at its position and everything between tokens being white space.",
  ["inputs"], "every short text over all ASCII characters and representatives of other scripts, alone and after typical beginnings of commands",
  NT + "the tokenizer tests use about thirty well-formed texts.",
  [TK, PA, S + "analysis/tokens.rs"], [("character scanning", TK), ("parser", PA)], ["parse results", "tokens"], "Text is symbolic character by character.")
P("C11", "Literals are stored as written or refused",
  "Every integer literal within the 64-bit signed range is stored as exactly that number and every one outside it is refused; a string literal yields exactly its characters with the documented escapes decoded, letter case kept, and an unfinished or wrongly escaped one is refused; float literals yield the nearest 32-bit float.",
  ["inputs"], "all digit strings up to the bound's length, all ASCII string bodies up to the bound's length",
  NT + "a few literals are tried; the range boundary, escapes at the end and upper-case strings are not.",
  [TK, PA], [("number and string scanning", TK), ("literal parsing", PA)], ["parse results"], "Digits and characters are symbolic.")
P("C12", "Well-formed requests mean what they say however spelled",
  "Every well-formed statement is read as exactly the operation, key, values and lifetime written, whatever the letter case of keywords and type names, whatever white space separates the tokens, with or without a final semicolon; statements separated by semicolons, including empty ones, are read in order.",
  ["programs", "inputs"], "every statement form and literal shape, all letter-case spellings, every white space character, symbolic identifiers and values",
  NT + "one spelling per statement kind is tried.",
  [PA, TK], [("statement parsers", PA), ("keyword recognition", TK)], ["parse results"], "Letter case, white space, identifiers and literals are symbolic.")
P("C13", "Malformed statements are refused, never reinterpreted",
  "A sequence of tokens that is not a sequence of well-formed statements is refused as a whole: missing or extra operands, unfinished or mistyped collection literals, misplaced punctuation and keywords in operand position never yield any statement, and never a shorter or different one.",
  ["programs", "inputs"], "all token sequences up to the bound's length after every command and several openings of collection literals",
  NT + "a few malformed texts are tried.",
  [PA], [("statement and literal parsers", PA)], ["parse results"], "Differential check against a reference grammar.")
P("C14", "A request is understood however its bytes are split over reads",
  "A complete, well-formed request is recognised with exactly the query and the header values the client sent, no matter how its bytes are divided over reads (inside the request line, a header, the blank line, the body, or beyond the read buffer's size) and whatever follows it on the connection; it is answered without waiting for more input once its last byte has arrived, and never before. This holds for the blocking and for the asynchronous front end alike.",
  ["inputs", "schedules"], "every position at which the byte stream can be split (one and two splits, and constant-size pieces from 1 byte on), several header orders and JSON layouts, symbolic query and header contents, bodies beyond the 1024-byte buffer",
  "Tests of the front end deliver nothing over a socket, let alone in pieces.",
  [TCP, TCPA], [("read loop that accumulates a request", TCP), ("the same loop, asynchronous", TCPA)], ["StreamRequest returned by the stream handlers"], "Sockets are modelled; the split positions are explored exhaustively.")
P("C15", "Any bytes on a connection get an answer, never a crash or a hang",
  "Whatever bytes a client sends, and whether it then closes the connection or the connection breaks, receiving terminates without panicking and yields either a request or an error, always with a way to answer the client; the answer can be sent. A connection that fails to be accepted is reported and the next one is served normally. A request cut short is never executed.",
  ["inputs", "fault_schedules"], "every byte string up to the bound's length after each of 13 beginnings of a request, followed by end of stream or a read error; 1 to 34 headers",
  "Tests do not send malformed or truncated requests.",
  [TCP, TCPA], [("request parsing and its error exits", TCP), ("the same, asynchronous", TCPA)], ["StreamRequest returned by the stream handlers", "bytes written to the connection"], "httparse and serde_json are executed symbolically as well.")
P("C16", "The query is exactly what the client's JSON body says",
  "A request is accepted exactly if it is a POST that announces its body's length and whose body of exactly that many bytes is a JSON object with a string \"query\"; then the query is that string with its JSON escapes decoded. Bytes beyond the announced length are ignored, a body shorter than announced, an unreadable or oversized length, other methods and other bodies are refused with an error.",
  ["inputs"], "every announced length of up to four characters (ten in the thorough tier) and a list of extreme ones, every query text up to the bound's length over all ASCII characters and all escapes, and representative other bodies and methods",
  "One fixed body is parsed in the tests.",
  [TCP, TCPA], [("Content-Length and body extraction", TCP), ("the same, asynchronous", TCPA)], ["StreamRequest returned by the stream handlers"], "Differential check against a reference decoder of JSON strings.")
P("C17", "Responses are complete, correctly framed HTTP messages",
  "Every response is delivered as one HTTP/1.1 message whose status code matches the outcome (200 for success; 422 key, token, parse, index and type errors; 500 network, write and internal errors; 401 authorization; 403 authentication; 400 request errors), whose Content-Length is the length of its body in bytes, and which is delivered completely however few bytes the connection takes per write; if the connection breaks the sender reports an error instead of success. The connection is closed afterwards.",
  ["inputs", "fault_schedules"], "every outcome kind with symbolic text including non-ASCII characters, every write size up to the bound, and a write failure at every byte position",
  "No test sends a response over a connection, short writes least of all.",
  [TCP, TCPA, ERR], [("response formatting and writing", TCP), ("the same, asynchronous", TCPA), ("status codes", ERR)], ["bytes written to the connection"], "Differential check against a client-side reader of the message.")
P("C18", "Every response body denotes its result",
  "The body of every successful response is valid JSON that denotes exactly the result: the variant, and every value in it, for all value types including empty and non-empty vectors and maps with string or integer keys, strings with any characters, and the extreme integers and floats; the body of an error names the error kind and its message. Sending a response never panics.",
  ["inputs"], "every result kind; strings of up to two characters over all ASCII and representatives of longer encodings; integers of the bound's width and the extreme ones; collections of up to two elements; floats from a list of boundary values",
  "Tests compare a few responses as Rust values; they are never serialised.",
  [TCP, TCPA, TY, IN], [("serialisation of responses", TCP), ("serialised types", TY), ("response variants", IN)], ["bytes written to the connection"], "Differential check with an independent JSON reader; floats and wide integers only from lists, as their printing is arithmetic outside Z3's reach.")

FRONT = [("connection handling", TCP), ("asynchronous connection handling", TCPA)]
P("C19", "Each server answers every request as the store prescribes",
  "Clients that talk to a server one after another - single-threaded, multi-threaded or asynchronous - each get one complete response, which is the one the reference store gives for the sequence of requests so far (values, results, error kinds and status codes); the three servers agree, and each keeps serving until an authorised shutdown.",
  ["histories", "inputs"], "every history of up to the bound's number of requests, out of eighteen kinds with symbolic values, from six kinds of user, to each of the three servers",
  "No test starts a server.", [ST, AS, MC, ML, MA, ME, TCP, TCPA], [("single-threaded loop", ST), ("listener, analysis and executor threads", MC), ("asynchronous tasks", AS)], ["bytes written to the connections"], "The whole server runs, from the accepted connection to the response bytes, with model sockets, threads and clock.")
P("C20", "Concurrent clients get their own, linearizable responses",
  "When several clients talk to the multi-threaded or the asynchronous server at the same time, every one of them gets exactly one response, to its own request, whatever the interleaving of the server's threads or tasks; and there is an order of the requests in which the reference store gives exactly these responses and the state later clients see. No interleaving deadlocks.",
  ["schedules", "histories"], "every schedule of the server's threads or tasks within the delay bound, every choice of requests for two to four concurrent clients",
  "Concurrency is not tested at all; a lost wake-up or a mixed-up response needs a particular interleaving.", [MC, ML, MA, ME, MX, AS], [("hand-over of requests and responses between threads", MC), ("listener pool", ML), ("channels between tasks", AS)], ["bytes written to the connections"], "Schedules are explored with a bound on the number of delays; the decisions are symbolic variables.")
P("C21", "Only an authorised shutdown stops a server, and it stops cleanly",
  "A server stops exactly when it has executed a shutdown sent by an administrator: refused, malformed or failing requests never stop it, the client asking for the shutdown gets its response, as does every request answered before, and serve() returns in bounded time with no thread or task left hanging, whatever the interleaving.",
  ["histories", "schedules"], "every sequence of up to the bound's number of requests with and without shutdown, alone or within longer requests, from every kind of user; all schedules within the delay bound, with timers firing on time or early",
  "No test shuts a server down.", [ST, AS, MC, ML, ME], [("stop flag of the single-threaded server", ST), ("propagation of the shutdown to the threads", MC), ("shutdown of the asynchronous server", AS)], ["return of serve()", "bytes written to the connections"], "A watchdog in virtual time detects a server that does not stop.")
P("C22", "Authentication and authorisation gate every request",
  "Over a connection, exactly the known users get the rights of their level: a missing, unknown or unauthenticated user name is refused with the error of that kind and status 500, 401 or 403, a user without the right for some statement of a request is refused with 401, and nothing a refused or malformed request asks for takes effect; a malformed HTTP request is answered as such whoever sends it. The same on all three servers.",
  ["inputs", "histories"], "every user name of four to six printable characters, each kind of known user, each of eighteen requests and three malformed ones, before and after an earlier write",
  "Authentication over a connection is not tested.", [AUTH, IN, ST, AS, MA], [("authenticator", AUTH), ("use in the single-threaded server", ST), ("in the analysis threads", MA), ("in the asynchronous server", AS)], ["bytes written to the connections"], "User names are symbolic; later readers show whether a refused request had an effect.")
P("C23", "A failing client does not harm the others",
  "A client whose connection cannot be accepted, breaks or ends in the middle of its request, breaks while its response is written, or which sends garbage, loses at most its own response: a request cut short is not executed, and every other client of the server is served with correct results, before and after it. The same on all three servers.",
  ["fault_schedules", "schedules"], "each kind of disturbance at several places in the request and response, up to the bound's number of disturbed clients between healthy ones, and schedules within the delay bound",
  "Faults on connections are not tested.", [ST, AS, MC, ML, TCP, TCPA], FRONT + [("serving loops", ST), ("listener threads", ML)], ["bytes written to the connections"], "Faults are injected by the model sockets.")
P("C24", "Requests of several statements are atomic between clients",
  "When concurrent clients send requests of several statements, no client ever observes, and the final state never shows, another request partly executed: the results are those of the requests executed one at a time.",
  ["schedules", "histories"], "two or three concurrent clients with requests of one to three statements, every schedule within the delay bound",
  "Concurrency is not tested at all.", [ME, MC, AS, IN], [("single executor thread", ME), ("store shared between tasks", AS)], ["bytes written to the connections"], "The responses and later reads must be explained by some order of whole requests.")
P("C25", "Expired entries are reclaimed even if nobody asks for them",
  "On the multi-threaded and the asynchronous server, entries whose lifetime has ended disappear from memory within the server's removal interval although no client refers to them again, while entries without lifetime and the service itself are unaffected.",
  ["histories", "schedules"], "up to three entries given a lifetime in any of three ways, with and without a permanent entry, any random draws of the removal step, schedules within the delay bound",
  "The background removal is never run by a test.", [MX, ME, MC, AS, HS], [("expiration thread", MX), ("removal request to the executor", ME), ("expiration task", AS)], ["number of entries held in memory", "bytes written to the connections"], "Virtual time passes the removal interval.")
P("C26", "Servers listen exactly where they are told, and the programs serve",
  "A stream handler or coordinator created for an address and port listens on exactly that address and port, for IPv4 and IPv6; the three programs of the repository listen on 127.0.0.1:7878 and serve requests there until an administrator shuts them down.",
  ["inputs"], "IPv4 addresses with symbolic octets, IPv6 addresses, every port; the programs' main functions with every request of the bound from six kinds of user",
  "No test opens a listening socket.", [TCP, TCPA, S + "simple.rs", S + "multi.rs", AS, MC], [("binding the listener", TCP), ("binding the asynchronous listener", TCPA)], ["address given to the socket", "bytes written to the connections"], "Address resolution is modelled for literals.")
