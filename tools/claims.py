NP="Every index, slice bound, dereference, conversion, allocation size and division on every path (loops to fixpoint, calls inlined) is proved safe for all inputs or reported. Trusts go/ssa, the abstract interpreter and the models of standard library functions."
TM=" Termination: every loop needs a ranking expression found and proved by the analysis."
C["C01"]=(AI+" (relational numeric domain): panic freedom and termination of the decoders",NP+TM)
FP="The decoder is interpreted over an arbitrary input; at every outcome each field of the result is proved equal to the RFC's expression over input bytes (linear equalities over symbolic bytes in the abstract state). Rejections are checked in both directions."
C["C02"]=(AI+": field positions proved as equalities over symbolic input bytes",FP)
C["C03"]=(AI+": field positions proved as equalities over symbolic input bytes",FP+" The NTP timestamp is compared as two 32-bit words.")
C["C09"]=(AI+" (relational numeric domain): panic freedom of splitter and conversions",NP+TM)
C["C11"]=(AI+" (relational numeric domain): class invariant of the bit reader by fixpoint over any sequence of calls",NP+TM+" The invariant holds for every sequence of exported method calls.")
SY="The parser is interpreted together with an automaton of the standard's syntax table: every call of the bit reader is an event, and on every path the sequence of elements read, their coding, the conditions they depend on and the field each one ends in must agree with the table. "
C["C15"]=(AI+" in product with the syntax automaton of the sequence parameter set",SY+"Scaling lists and reference frame offsets are loops solved to fixpoint. The bit reader's own decoding is the subject of C11 and C12.")
C["C16"]=(AI+" in product with the syntax automaton of the picture parameter set",SY+"The chroma format of the referred sequence set decides the number of scaling lists; where that set is unknown any number the standard allows is accepted.")
C["C14"]=(AI+" (relational numeric domain): panic freedom, work and allocation bounds of the parameter set parsers","Reads of the bit reader are replaced by their contract (any value of their range or an error; C11 and C13 decide the reader). Every index, slice, allocation and map operation is proved safe; every loop consumes input in each iteration or is bounded by a constant or the input's length.")
C["C17"]=(AI+": effect analysis of the parsers on the stores","Earlier contents of the stores are arbitrary. Stores into maps and into existing sets are tracked on all paths; keys and values are compared at each outcome.")
C["C45"]=(AI+": dispatch of ParseSprop with parsers as events","All header bytes are covered by cases; identity of slices is tracked through the conversion.")
C["C18"]=(AI+" (relational numeric domain): derived picture size as a linear equality over syntax elements","On every successful path Width and Height are proved equal to the standard's expression of the elements read, modulo 2^32, split by profile, chroma format, plane separation and frame_mbs_only.")
C["C37"]=(AI+" (relational numeric domain): class invariant of the playlist by fixpoint over any sequence of calls",NP+TM+" The invariant holds for every sequence of method calls after creation.")
C["C38"]=(AI+": inductive step of the ring over the class invariant; rendered text as a rope","AddSegment is decided for every capacity and every state of the invariant. The rendering is decided for capacities up to 4 with every position of the window; the text is a rope of constants and formatted symbolic values.")
C["C41"]=(AI+" (relational numeric domain): linear result per case of the RFC","Complete: all pairs of numbers, five cases.")
TX="Text is a rope of constants and symbolic words; the functions of strings, strconv, fmt and bytes used are modelled exactly on ropes. "
C["C19"]=(AI+" (relational numeric domain): panic freedom and termination of the SDP parser",NP+TM+" Functions of strings, bytes and strconv are models whose results have bounded lengths.")
C["C20"]=(AI+" (text domain): attribution of attribute lines over sequences of line kinds",TX+"Bodies with every sequence of up to four media descriptions of three kinds, with attribute lines in different places, symbolic values and both line ends; longer bodies are not analysed. Crashes on arbitrary bytes are C19.")
C["C34"]=(AI+" (text domain): serialized request as a rope equal to the RFC's form",TX+"All verbs and an arbitrary one, with and without session, authorization and up to two extra headers (in either map order).")
C["C35"]=(AI+" (text domain): writer/reader agreement for every parameter, error for every malformed one",TX+"Every combination of mode and presence of parameters with symbolic values (numbers positive, strings words); combinations not produced by one transport mode are left out.")
C["C36"]=(AI+" (text domain): header as a rope over uninterpreted MD5 terms",TX+"MD5, hex and base64 are uninterpreted functions, so equality means the same inputs in the same order. Three requests with one challenge are compared; challenges vary in qop, algorithm, opaque and order of parameters.")
NA["C44"]="Delivery completeness and keep-alive timing depend on the network, the server and the scheduler's clock; no static argument bounds them."
SE="The session is interpreted on a model of network, clock and user: what the server sends is a rope of constants and symbolic words, what the session writes, delivers or announces is recorded per path. Histories are enumerated: every state of OPTIONS, DESCRIBE, SETUP (answered in different orders, refused, challenged), PLAY, PAUSE, TEARDOWN and a repeated DESCRIBE, over TCP and the HTTP tunnel (and UDP where the transport matters), with up to 3 feeds; within them numbers, words and contents are symbolic. Longer histories are not analysed. "
C["C21"]=(AI+" (relational numeric domain): panic freedom of parsers, digest and receive loop, solved to a fixpoint over all histories",NP+" Parsers of messages and headers run over a stream of arbitrary bytes, with termination; the digest takes any challenge and any number of requests; the session takes any command at any wait, arbitrary bytes, and arbitrary results of network, clock and the SDP and H.264 parsers (whose own panic freedom is C01, C11, C14 and C19).")
C["C22"]=(AI+" of the receive loop over a symbolic stream (rope domain, linear lengths)",SE+"After each history the stream has up to three frames with symbolic channel, length (0 to 65535) and contents, and responses between them.")
C["C23"]=(AI+" of the receive loop over a symbolic stream with a stall at each point",SE+"Stalls are placed after each header byte, after a symbolic number of content bytes and at points within each part of a response.")
C["C25"]=(AI+" of the response handling: effect comparison of matching and other responses",SE+"Probe responses carry no number, zero, numbers never used, answered before or outstanding; effects are everything written, announced, stored or opened.")
C["C26"]=(AI+" of the response handling: announcements per history",SE+"Every verb is answered with a symbolic status other than 200 and 401, and with 200 in each order of SETUP answers.")
C["C27"]=(AI+" of the response handling: retransmitted requests as ropes",SE+"Each verb is challenged once, twice with different nonces, and without end; the request sent again is compared as a rope with the first one, and its authorization with the term of the newest challenge.")
C["C28"]=(AI+" of the command path: numbers of requests and order of bookkeeping and write",SE+"For histories of commands and retransmissions the counter is symbolic from an inductive point on; at the point of each write the response to it is processed by the receive loop to see whether the request is known.")
C["C42"]=(AI+" of the command path: session id as a rope word",SE+"The id is a symbolic word assigned by each kind of response, with and without parameters, and changed later.")
C["C24"]=(AI+" with identities of memory (allocation sites per execution, sharing through append)",SE+"Streams of up to three frames and sequences of up to three datagrams per receiver; payloads, lengths and channels are symbolic.")
C["C31"]=(AI+": typestate of deadlines at each network operation","Every exported method of the connection is entered with no deadline set and any positive timeout; along the histories deadlines are taken to expire whenever a message is complete. UDP sockets are not part of the property.")
C["C32"]=(AI+": typestate of connections and sockets over all endings",SE+"Dialling fails at each of its operations and for eight kinds of replies; each history is ended in fourteen ways, including failing writes and sockets.")
C["C33"]=(AI+": information flow of the password as a symbolic word through formatting, hashing and encoding",SE+"What is shown by formatting pointers, structures and errors follows the rules of package fmt.")
C["C39"]=(AI+" of receivers and of stopping over models of sockets and channels","One or two sinks with any channel and port; sequences of datagrams, timeouts and failures; stopping before or after each receiver has ended, with and without a consumer. A receiver that is stopped is analysed from its start, as it keeps no state of its own. Interleavings of two callers of Stop are not considered.")
C["C46"]=(AI+": panic freedom and results of commands on an unopened session","Both a new session and every failure of opening (URL, name resolution, connecting, tunnel) are considered.")
C["C47"]=(AI+" of the response handling: sockets and channels per history",SE+"1 to 3 feeds, up to three orders of answers, every subset of accepted feeds.")
C["C29"]=(AI+" of both threads with a lockset analysis over abstract memory locations",SE+"A location is an object and a part of it; objects that a thread has made and not yet made reachable from the session are not shared. Locksets decide every interleaving at once. Session histories with two feeds, followed by every command, a frame, a challenge, an answer, every command, a description and every command. Data that is handed over by channels is outside (C24).")
C["C30"]=(AI+" with typestate of mutexes and of blocking operations",SE+"A session lock is a mutex held at some store into the session or one of its maps. Besides the histories of C29, each one is continued with fifteen kinds of ends of receiving, and with each command while every operation fails.")
C["C40"]=(AI+" with failures as a typestate of functions that are active",SE+"Each operation of network and buffered reader fails at each point that is analysed, with a timeout or another error; histories with two feeds are followed by all kinds of ends of receiving and by each command while every operation fails. Reads of bits are replaced by contracts that may fail; the sink reports malformed payloads by C05 and C06 only.")
BR="The reader is analysed in every state of the class invariant inferred for C11, split by the offset of the position in its byte and by values of small fields; the byte position, the buffer's length and its bytes are symbolic. Values are linear forms over bits of the buffer. The position is observed as the number of available bits."
C["C12"]=(AI+" (relational numeric domain with bit-level linear forms) over the class invariant of the bit reader",BR+" Complete for n up to 32.")
C["C13"]=(AI+" (relational numeric domain with bit-level linear forms) over the class invariant of the bit reader",BR+" Complete for codes with up to 31 leading zeros; longer codes are outside of the property.")
NS=" Payloads have given structure and symbolic sizes, headers, offsets and contents; removal of emulation prevention bytes is an uninterpreted function, the splitter delivers a given list of units. "
C["C04"]=(AI+" (relational numeric domain): class invariant of the sink by fixpoint over any sequence of pushes",NP+TM+" Removal of emulation prevention bytes is analysed for any bytes and then replaced by any result.")
C["C05"]=(AI+" (relational numeric domain, rope domain): each delivered field as an expression over payload bytes",NS+"Every kind of aggregation packet with one to four units, complete and cut off, after five kinds of histories; sizes are any 16-bit numbers.")
C["C06"]=(AI+" (rope domain) in product with the automaton of RFC 6184 5.8",NS+"Every sequence of up to five pushes of start, middle and end fragments of both kinds, whole units, single units and broken fragments.")
C["C07"]=(AI+" (rope domain): list of units after a push",NS+"Every type of single unit and up to five units with start codes, with symbolic types, after five kinds of histories.")
C["C08"]=(AI+" with identities of memory: ownership of what the sink reaches, in the class invariant of the sink","Memory shared through slicing, append in place and joins of paths is tracked; the invariant holds for every sequence of pushes.")
TR="The function runs in product with a finite-state monitor; its loops are solved to fixpoint with states partitioned by the state of the monitor and by what is known of the next three bytes of input, so the result holds for strings of every length. "
C["C10"]=(AI+" of the conversion in product with a finite automaton over its output",TR+"The monitor counts zero bytes at the end of the output.")
C["C43"]=(AI+" of both conversions in product with reference transducers",TR+"Every byte put out is proved to be the one the reference transducer puts out for the same input. That the reference transducers undo each other is decided on their finite product. Output built other than by append, stores at the next index or copy is not recognised.")
