#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below.
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
RTP="net/rtp/packet.go"; RTCP="net/rtcp/packet.go"; PK="net/h264/packet.go"; AB="net/h264/annexb.go"; BT="net/h264/bits.go"; PS="net/h264/spspps.go"
HLS="net/hls/playlist.go"; SDP="net/sdp/packet.go"; CN="net/rtsp/connection.go"; DG="net/rtsp/digest.go"; FD="net/rtsp/feed.go"; HT="net/rtsp/http.go"; MS="net/rtsp/message.go"; SS="net/rtsp/session.go"; TR="net/rtsp/transport.go"

p("C01","Decoding any RTP or RTCP bytes never crashes",
"For every byte string, including empty, truncated and hostile ones, decoding it as an RTP or as an RTCP packet terminates and returns either a packet or an error. It never panics and never reads outside the given bytes.",
["inputs"],"every byte string given to the RTP or RTCP decoder",
"There is no test for either decoder; a header count or extension length that points past the end exists for every length, so samples cannot cover them.",
[RTP,RTCP],[("RTP decoder","net/rtp Unpack"),("RTCP decoder","net/rtcp Unpack")],["return of rtp.Unpack / rtcp.Unpack"])
p("C02","RTP packets decode to the fields RFC 3550 defines",
"When an RTP packet decodes successfully, version, padding, extension, marker, payload type, sequence number, timestamp, SSRC, every CSRC, the extension profile, length and data, and the payload are exactly the bits and bytes that RFC 3550 section 5.1 puts in those positions of the input, and the payload excludes padding when the padding flag is set. A packet whose version is not 2 is rejected with an error.",
["inputs"],"every byte string, every CSRC count 0..15, every extension length, every padding length",
"No test decodes an RTP packet; offsets depend on the CSRC count, the extension length and the padding length together.",
[RTP],[("fixed header loads, CSRC loop, extension and payload slicing","net/rtp Unpack"),("flag accessors","rtp.Packet P X CC M PT")],["fields of the returned packet"])
p("C03","RTCP packets decode to the fields RFC 3550 defines",
"When an RTCP packet decodes successfully, its count and padding flag, packet type and length are the RFC 3550 header bits, and for a sender report the sender SSRC, NTP timestamp, RTP timestamp, packet count and octet count are exactly the big-endian words at offsets 4, 8, 16, 20 and 24. A packet whose version is not 2, or a sender report too short for its report count, is rejected with an error.",
["inputs"],"every byte string",
"No test decodes an RTCP packet.",
[RTCP],[("header and sender-info loads, length guard","net/rtcp Unpack")],["fields of the returned packet"])
p("C04","No sequence of RTP payloads crashes the H.264 depacketizer",
"Pushing any sequence of payloads with any timestamps into a NAL sink terminates on each push and returns nil or an error. It never panics, whatever aggregation sizes, fragment headers or truncations the payloads contain and whatever was pushed before.",
["inputs","histories"],"every payload, every timestamp, every sequence of pushes on one sink",
"No test exercises the depacketizer; the 16-bit size fields of STAP and MTAP reach every boundary including wrap-around.",
[PK,AB],[("aggregate size checks","NALSink.Push and the STAP/MTAP parsers"),("fragment header checks","NALSink.Push")],["NALSink.Push"])
p("C05","Aggregation packets deliver every unit with its own header and time",
"For a STAP-A, STAP-B, MTAP16 or MTAP24 payload, one unit is delivered for each 16-bit size field, in order; its header is the first of exactly the bytes that the size announces and its data are the others with emulation prevention bytes removed. Its timestamp is the packet timestamp (STAP) or the packet timestamp plus the unit's own 16- or 24-bit offset (MTAP), and its decoding order number is the packet's base plus its index (STAP-B) or the packet's base plus the unit's own difference (MTAP).",
["inputs"],"every aggregation payload, any number of units, any sizes, offsets and order numbers",
"No test contains an aggregation packet.",
[PK],[("unit slicing and timestamp arithmetic","STAP/MTAP parsers in net/h264")],["NALSink.Units after Push"])
p("C06","Fragmented NAL units are reassembled only from one start-to-end run",
"A unit assembled from FU-A or FU-B fragments is delivered only when an end fragment arrives, and consists of the payloads, in arrival order and each exactly once, of the fragments received since the most recent start fragment, with emulation prevention bytes removed from the whole. A fragment that arrives with no start fragment pending is never part of a delivered unit and is not retained, and fragments of a delivered unit never reappear in a later one; the delivered header has the F/NRI bits of the indicator and the type of the fragment header, the timestamp is that of the packet with the end fragment, and the decoding order number is the one that the start fragment carries if it is FU-B.",
["inputs","histories"],"every sequence of fragments, with losses, duplicates and interleaved single units",
"No test pushes a fragment; the failures need a lost packet between two fragmented units.",
[PK],[("fragment queue reset, append and combine","NALSink.AddFragment")],["NALSink.Units, NALSink.Fragments"],
[("fragment queue","fragments of the unit being assembled","NALSink.Fragments"),("unit queue","units of the last pushed payload","NALSink.Units")])
p("C07","After a push the sink holds exactly the units of that payload",
"After a successful push, the sink's unit list holds all the units completed by that payload, in order, and no unit of an earlier push. In particular a payload that contains several units separated by start codes delivers all of them.",
["inputs","histories"],"every payload and every sequence of pushes",
"No test pushes a payload at all.",
[PK],[("unit queue reset once per payload","NALSink.Push")],["NALSink.Units after Push"])
p("C08","Delivered and retained NAL data never aliases the caller's buffer",
"No byte of a unit or fragment that the sink delivers or keeps for a later push shares memory with the payload slice given to push, so the caller may reuse its receive buffer immediately. Likewise the conversions between encapsulated and raw byte sequences and the start-code splitter return freshly allocated data.",
["inputs","histories"],"every payload and every reuse of the buffer after the call",
"Aliasing is invisible unless the buffer is overwritten between two pushes.",
[PK,AB],[("copying emulation removal","EBSPToRaw"),("units sliced from the copies","NALSink.Push")],["NALUnit.Data, NALFragment.Data"])
p("C09","Annex B splitting and emulation conversion never crash",
"Splitting any byte string on start codes, removing emulation prevention bytes from any byte string and adding them to any byte string terminates and never panics, including for empty, one- and two-byte inputs and inputs that end in zero bytes.",
["inputs"],"every byte string",
"Each function has one well-formed sample; the boundary at the last two bytes is not among them.",
[AB],[("look-ahead bounds","SplitAnnexB, EBSPToRaw, RBSPToEncapsulated")],["return of the three functions"])
p("C10","Encapsulated output never contains a start code or emulation",
"The encapsulated form produced from any raw byte string never contains two zero bytes followed by a byte 0, 1 or 2, wherever zero runs occur and however long they are.",
["inputs"],"every byte string, zero runs of every length and position",
"One sample with a single two-byte zero run.",
[AB],[("insertion of 0x03","RBSPToEncapsulated")],["return of RBSPToEncapsulated"])
p("C11","The bit reader never reads outside its buffer",
"For every buffer (also an empty one) and every sequence of bit reader operations with any arguments, no operation panics or reads past the end. An operation that cannot be satisfied returns an error, and the number of available bits never underflows nor exceeds the buffer.",
["inputs","histories"],"every buffer, every operation sequence, every bit count argument",
"The tests read one two-byte buffer in one order.",
[BT],[("availability guard","BitReader.ReadBits, SkipBits, Available")],["BitReader methods"])
p("C12","Reading n bits yields exactly the next n bits",
"A read or skip of n bits (n up to 32, from any bit position) succeeds exactly when n bits are available. A successful read returns the next n bits of the buffer, most significant first, and advances the position by exactly n; skipping n bits advances identically. A refused read leaves the position unchanged.",
["inputs"],"every n in 0..32, every alignment, every buffer content and position",
"The tests read at most 7 bits at a time from one buffer; wide unaligned reads are never exercised.",
[BT],[("shift-and-mask accumulation","BitReader.ReadBits"),("position update","BitReader.SkipBits")],["BitReader.ReadBits, ReadByteBits, ReadFlag, SkipBits"])
p("C13","Exp-Golomb codes decode as H.264 section 9.1 defines",
"An unsigned Exp-Golomb read of a code with k leading zeros (k up to 31) returns 2^k - 1 plus the following k bits and consumes exactly 2k+1 bits; the signed read maps the unsigned value v to +(v+1)/2 when odd and -(v/2) when even; skipping a code consumes the same bits. A code cut off by the end of the buffer yields an error.",
["inputs"],"every code word and every alignment",
"Five one-byte code words are tested.",
[BT],[("leading-zero loop","BitReader.ReadUnsignedGolomb, ReadSignedGolomb, SkipGolomb")],["return values and position"])
p("C14","Parsing any parameter set never crashes or exhausts memory",
"Parsing any byte string as SPS, PPS or sprop parameter set, with any sets parsed before, terminates after work bounded by the length of the input and returns nil or an error. It never panics and never allocates memory out of proportion to the input, whatever counts and sizes the bits encode.",
["inputs","histories"],"every byte string and every sequence of parses",
"The tests parse two real SPS and two real PPS; hostile counts (slice groups, map units, reference frame cycles) never occur.",
[PS,BT],[("count validation and per-iteration reads","ParameterSets.ParseSPS, ParsePPS, ParseSprop")],["ParameterSets methods"])
p("C15","SPS syntax elements are read in the order H.264 7.3.2.1.1 defines",
"Every SPS that parses successfully had its syntax elements read in the order, with the descriptors (u(n), ue, se) and under the conditions of H.264 7.3.2.1.1 up to the VUI flag, and each reported field holds the element of that name.",
["inputs"],"every profile, chroma format, order count type, frame/field, cropping and scaling list combination",
"Two cameras' SPS of one profile, progressive only.",
[PS],[("syntax walk","ParameterSets.ParseSPS")],["SPSInfo returned by GetSPS"])
p("C16","PPS syntax elements are read in the order H.264 7.3.2.2 defines",
"Every PPS that parses successfully had its syntax elements read in the order, with the descriptors and under the conditions of H.264 7.3.2.2, for every slice group map type, and each reported field holds the element of that name. The optional tail (8x8 transform, scaling lists, second chroma offset) is read exactly when more data than the trailing stop bit is present.",
["inputs"],"every slice group map type and count, with and without the optional tail",
"One PPS without slice groups.",
[PS],[("syntax walk","ParameterSets.ParsePPS")],["PPSInfo returned by GetPPS"])
p("C17","Only completely parsed parameter sets become visible",
"A lookup by id only ever returns a parameter set whose parse returned no error, stored under the id that was read from it. A parse that returns an error leaves every earlier set in place and unchanged.",
["inputs","histories"],"every sequence of good and malformed parameter sets",
"The tests only parse well-formed sets into an empty store.",
[PS],[("store after the last read","ParameterSets.ParseSPS, ParsePPS"),("lookup","GetSPS, GetPPS")],["GetSPS, GetPPS"])
p("C18","Picture size follows from the SPS as H.264 defines",
"The reported width is 16*(pic_width_in_mbs_minus1+1) and the height 16*(2-frame_mbs_only_flag)*(pic_height_in_map_units_minus1+1), minus the cropping offsets times the crop units of H.264 7.4.2.1.1 for the SPS's chroma format and frame/field mode.",
["inputs"],"every chroma format, frame/field mode and cropping",
"Two progressive 4:2:0 samples of one size.",
[PS],[("dimension arithmetic","ParameterSets.ParseSPS")],["SPSInfo.Width, SPSInfo.Height"])
p("C19","Parsing any SDP body never crashes",
"Parsing any byte string as an SDP body terminates and never panics, however its lines, media descriptions and attributes are truncated or malformed.",
["inputs"],"every byte string",
"One well-formed body.",
[SDP],[("field count guards","sdp.Parse")],["sdp.Parse"])
p("C20","SDP attributes are attributed to the media section they follow",
"Parsing yields exactly one feed per video media description, in order. An attribute line changes only the feed of the video description it follows: never a feed when it precedes any media description or follows a description of another kind.",
["inputs"],"every SDP body",
"The one test only logs the result.",
[SDP],[("current-media pointer","sdp.Parse")],["feeds returned by sdp.Parse"])
p("C21","No server bytes crash the RTSP client's parsers",
"Whatever bytes the server sends as RTSP response, HTTP tunnel reply, Transport header, authentication challenge or Session header, in any session state and answering any outstanding request, processing them returns normally or with an error; it never panics.",
["inputs","histories"],"every byte stream from the server, every session history",
"No test covers messages, transport parsing or the session; digest has two well-formed challenges.",
[MS,HT,TR,DG,SS,CN,FD],[("response parser","rtsp.Unpack"),("HTTP reply parser","ReceiveHTTP"),("transport parser","Transport.Parse, ParsePair"),("challenge parser","NewDigest"),("response handling","Session receive loop")],["return of the parsers and of the receive loop"])
p("C22","Interleaved frames are delivered with their exact channel and payload",
"For every interleaved frame in the RTSP stream, the packet delivered on the data channel carries the frame's channel byte and exactly the announced number of bytes that follow the four-byte frame header, for every announced length up to 65535, and reading continues at the byte after the frame. No other bytes are delivered as a packet.",
["inputs"],"every frame length 0..65535, every channel, every mix of frames and responses",
"No test covers the connection.",
[SS,CN],[("frame header decode","Session receive path"),("buffer size","Dial")],["Session.Data"])
p("C23","A read timeout never resumes in the middle of a message",
"If reading times out or fails after part of an interleaved frame or RTSP response has been consumed, the session stops reading from the stream. Only a timeout before the first byte of a frame or response is treated as idle and retried.",
["inputs","fault_sequences"],"every position in a frame or response at which the network stalls for longer than the timeout",
"Needs a stall at a particular byte; no test uses a connection.",
[SS,CN],[("idle detection before the first byte","Session receive path")],["Session.Data, Session.State"])
p("C24","Delivered packets own their memory",
"The payload of every packet sent on the data channel, from the interleaved stream or from a UDP socket, is memory that no later read overwrites and no other delivered packet shares.",
["histories","schedules"],"every sequence of packets and every delay of the consumer",
"Corruption shows only when the consumer is slower than the receiver.",
[SS,CN],[("copy before send","Session receive path, Conn.Start")],["RawPacket.Payload"])
p("C25","Only a response to an outstanding request affects the session, once",
"A response changes the session (its session id, authorization, feeds, stage, or what is sent next) only if its CSeq equals that of a request that was sent and not yet answered, and each request is answered at most once. A response that matches none is dropped or ends the session and changes nothing else.",
["inputs","histories"],"every stream of responses with duplicate, stale, missing or forged CSeq values",
"No test covers the session.",
[SS],[("remove-on-match lookup","Session response handler")],["Session.State, requests written"],
[("outstanding requests","sent and not yet answered, by CSeq","Session queue")])
p("C26","Stages are announced only after the server confirmed them",
"Play, pause and done are announced on the state channel only upon a 200 response to the corresponding PLAY, PAUSE or TEARDOWN request, and ready only upon a response to a SETUP request after every feed's SETUP was answered. No stage is announced for any other status code or verb.",
["inputs","histories"],"every status code, verb and response order",
"No test covers the session.",
[SS],[("status and verb checks before notification","Session response handler")],["Session.State"])
p("C27","A challenged request is retransmitted as itself, a bounded number of times",
"On a 401 response the same request is sent again with the same verb, URI, headers and CSeq, carrying an authorization computed from the new challenge for that verb. A server that keeps answering 401 to a request receives only a bounded number of retransmissions, after which the session ends with an error.",
["inputs","histories"],"every sequence of 401 responses, with several requests outstanding",
"No test covers the session; the defects need a wrong password or two pipelined SETUPs.",
[SS],[("retransmission","Session response handler")],["requests written"])
p("C28","Every new request gets a fresh CSeq and is tracked before it is sent",
"Each new command uses a CSeq strictly larger than every earlier one of the session, is recorded as outstanding under exactly the CSeq it carries on the wire, and is recorded before its bytes are written, so that no response can arrive before the request is known.",
["histories","schedules"],"every sequence of commands",
"No test issues commands.",
[SS,MS],[("increment, enqueue, pack, write","Session command path")],["requests written, outstanding requests"])
p("C29","Commands and the receive loop share session state without races",
"Every piece of mutable session state that both the caller's command methods and the session's background receiver access is accessed by them under one common lock, so issuing commands while responses are being processed has no data race.",
["schedules"],"every interleaving of caller commands with the background receiver",
"Races need a schedule; no test runs a session.",
[SS,DG],[("session mutex","Session"),("per-request authorization","Session.command path, Digest")],["Session methods under the race detector"])
p("C30","No session call blocks or returns while holding the session lock",
"Every path through the session releases the session lock exactly once for each time it was taken, and performs no channel operation, network read or network write while it is held, so a slow consumer or server can never deadlock command calls.",
["schedules","fault_sequences"],"every path and every blocking consumer or server",
"A lock leak or a blocking call under the lock shows only under particular schedules.",
[SS],[("short critical sections","Session")],["Session methods"])
p("C31","Network operations are bounded by the configured timeout",
"When a positive timeout is configured, every read from and write to the RTSP connection that can block is preceded by arming the corresponding deadline from that timeout, on every path.",
["inputs","fault_sequences"],"every point at which the peer may stall",
"Needs a stalled peer.",
[CN],[("SetReadDeadline / SetWriteDeadline before I/O","Conn methods")],["Conn methods"])
p("C32","Connections, sockets and receivers are released",
"A connection opened while dialling is closed on every path on which dialling fails. When a session's receive loop ends, for whatever reason, its connection is closed and its UDP receivers are stopped; every UDP socket that was opened is closed when its receiver ends.",
["fault_sequences","histories"],"every failure point of dialling and every way a session can end",
"Leaks are invisible to the tests.",
[CN,SS],[("close on error paths","Dial"),("deferred close","Session receive loop, Conn.Start")],["open sockets and goroutines"])
p("C33","Credentials never leave in clear and are never logged",
"The user's password and the URI form containing it reach the network only inside an Authorization header value (Basic or Digest), and never reach the log or standard output, neither directly nor inside a logged Authorization header. Request URIs never contain user information.",
["inputs","configurations"],"every URI with credentials, every challenge and every request",
"Tests do not look at logs or wire output.",
[SS,CN,DG,MS],[("credential-free base URI","Dial"),("redacted logging","Session command path")],["log output, bytes written"])
p("C34","Requests are serialized as well-formed RTSP/1.0",
"A serialized request is the line 'VERB URI RTSP/1.0', then CSeq with the request's number, each extra header, the Session header when a session id is known and the verb is neither OPTIONS nor SETUP, the Authorization header exactly when an authorization is set, User-Agent and Content-Length, each line ended by CR LF, then one empty line, with nothing after it.",
["inputs"],"every request",
"No test serializes a request.",
[MS],[("Request.Pack","net/rtsp")],["Request.Pack"])
p("C35","Transport parameters survive being written and parsed",
"Every parameter that formatting a transport can emit is recognised by transport parsing under the same name and stored in the same field through the inverse conversion, and parsing reports an error for a recognised parameter that lacks its required value or has a malformed number. Parsing stops with that error and never reports success for such a header.",
["inputs"],"every transport value and every header string",
"No test covers transports.",
[TR],[("writer and reader tables","Transport.String, Transport.Parse, ParsePair, Pair.String")],["Transport.String, Transport.Parse"])
p("C36","Digest responses follow RFC 2617 for every request",
"For a Digest challenge, the authorization for a verb carries the response MD5(HA1:nonce:HA2) without qop, or MD5(HA1:nonce:nc:cnonce:qop:HA2) with qop, where HA1 is MD5(user:realm:password) (re-hashed once with nonce and cnonce for md5-sess with qop) and HA2 is MD5(verb:uri) (with the body hash for auth-int). Computing an authorization never changes the inputs of a later one except for advancing the nonce count, and with qop every authorization uses a nonce count not used before with that nonce. For a Basic challenge the authorization is the base64 form of user:password.",
["inputs","histories"],"every challenge and every sequence of requests authorized with it",
"One Digest and one Basic request; never two requests with one challenge, never md5-sess or auth-int.",
[DG],[("response computation","Digest.Authenticate and the function it returns")],["Authorization header values"])
p("C37","No sequence of segments crashes the HLS playlist",
"For every playlist that creation accepts, any sequence of adding segments and rendering never panics and rendering always terminates. Creation rejects segment counts for which this could not hold.",
["inputs","histories"],"every segment count and every number of added segments",
"One playlist of five with six additions; the ring's second wrap is never reached.",
[HLS],[("ring index arithmetic","Playlist.AddSegment, Playlist.String"),("validation","NewPlaylist")],["Playlist methods"],
[("First, Last","bounds of the ring window","Playlist")])
p("C38","The playlist keeps the newest segments, contiguous and in order",
"Each added segment starts at the byte where the previous one ended (the first at 0) and records the given duration and length. The playlist always lists the most recent segments, up to its capacity, oldest first.",
["inputs","histories"],"every number of added segments and every capacity",
"One wrap of one capacity.",
[HLS],[("position and ring update","Playlist.AddSegment")],["Playlist.String"])
p("C39","UDP receivers deliver datagrams until stopped and stop when told",
"Once started, the receiver of a UDP socket reads datagrams without waiting for anything else and delivers each on the data channel with that socket's channel number. Stopping never blocks indefinitely, whether the receiver is reading, delivering or has already ended, and makes every receiver end.",
["schedules","fault_sequences"],"every state a receiver can be in when it is stopped",
"No test opens a socket.",
[CN],[("receive goroutine and stop signal","Conn.Start, Conn.Stop")],["Session.Data, goroutines"])
p("C40","Errors from reading, writing and decoding are never swallowed",
"Whenever an operation that reads from or writes to the connection, or decodes bits, a parameter set, a NAL unit or a transport header reports an error, the library function that invoked it returns a non-nil error (or the receive loop ends, except for an idle timeout). It never reports success and never uses the failed operation's result as data.",
["inputs","fault_sequences"],"every operation and every point of failure",
"Tests only run successful paths.",
[CN,SS,MS,HT,BT,PS,PK,FD,TR],[("error propagation","all packages")],["returned errors"])
p("C41","Decoding order distance follows RFC 6184",
"The distance between two decoding order numbers is the one RFC 6184 section 5.5 defines for every pair: congruent to their difference modulo 65536 and between -32768 and 32768; numbers exactly 32768 apart yield 32768 when the first is the larger and -32768 when the second is.",
["inputs"],"every pair of 16-bit numbers",
"Not tested.",
[PK],[("wrap-around correction","DonDiff")],["DonDiff"])
p("C42","Session requests carry the session id the server assigned",
"Once a response has assigned a session id, every later PLAY, PAUSE and TEARDOWN request carries exactly that id, without the parameters that follow it in the Session header.",
["histories"],"every session history",
"No test covers the session.",
[SS,MS],[("session id capture and enqueue","Session response handler and command path")],["requests written"])
p("C43","Removing and adding emulation prevention bytes are inverse",
"For every byte string, encapsulation inserts one byte 3 before each byte of at most 3 that follows two zero bytes (zeros are counted anew after an insertion) and changes nothing else, and removal deletes exactly each byte 3 that follows two zero bytes (counted anew after a removal). So removing the emulation prevention bytes from the encapsulated form of any raw byte string yields that byte string again.",
["inputs"],"every byte string, zero runs of every length and position",
"One sample.",
[AB],[("conversion pair","EBSPToRaw, RBSPToEncapsulated")],["EBSPToRaw(RBSPToEncapsulated(b))"])
p("C44","Streams arrive complete and in time",
"Under a correct server and network, every RTP packet the server sends is eventually delivered to the consumer, in order per channel, and keep-alive requests are sent at least as often as the server's session timeout requires.",
["schedules","histories"],"every schedule of server, network and consumer",
"Tests have no server.",
[SS,CN],[("receive loop","Session")],["Session.Data"])
p("C45","Out-of-band parameter sets reach the parser of their type, unescaped",
"A parameter set given out of band is parsed as SPS exactly when the low five bits of its first byte are 7 and as PPS exactly when they are 8, in both cases from the bytes after the first with emulation prevention bytes removed, and the parser's error is returned. Empty values and other unit types are ignored without error and change nothing.",
["inputs"],"every byte string",
"The tests parse two units whose bytes contain no emulation prevention.",
[PS,AB],[("type dispatch and removal of emulation prevention","ParameterSets.ParseSprop")],["ParameterSets.ParseSprop, GetSPS, GetPPS"])
p("C46","Commands on a session that is not open fail without crashing",
"On a session that was never opened, or whose opening failed, Options, Describe, Play, Pause and Teardown return an error. No command, Setup and KeepAlive included, panics.",
["histories"],"every command on a new session and after every failure of opening",
"No test issues commands.",
[SS],[("connection guard","Session command path")],["return of the command methods"])
p("C47","UDP media is received on the ports agreed upon, each on its own channel",
"Over unicast UDP the client listens on exactly the two client ports its SETUP request offered for each feed whose SETUP succeeded, whatever ports the server uses itself; over multicast on the two ports of the response. Packets from the first port of a feed are delivered on an even channel number, those from the second on the next one, and no two feeds share a channel, in whatever order SETUP requests are answered.",
["inputs","histories"],"every number of feeds, every order of SETUP responses, every subset of accepted feeds",
"No test covers the session.",
[SS,CN,TR],[("choice of ports and channels","Session SETUP response handling"),("listening","Conn.AddSink"),("delivery","Conn.Start")],["local UDP ports, RawPacket.Channel"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(d)+"\n" for d in P))
print(len(P))
