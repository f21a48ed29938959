#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m) for n, m in state]
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)
B='sippy/b2bua.py'; TM='sippy/SipTransactionManager.py'; UA='sippy/UA.py'
CONN='sippy/UaStateConnected.py'
NOUA = 'No existing test drives the call controller, the user agents or the transaction layer at all; one scripted call would fix one ordering, while the claim ranges over every ordering of messages, timers and failures.'

p('C01','Every call attempt is answered exactly once, in bounded time',
  "Every new call attempt the B2BUA accepts from a caller receives exactly one final answer - one status, one dialog tag, unchanged however often it is retransmitted - no later than the caller's own expiry (300 s by default) plus the time to tear down what was in progress. No provisional answer is issued after the final one, and a call cancelled by the caller before any final answer was issued is answered 487.",
  ['schedules','fault_sequences','inputs'],
  'every delivery order, loss, duplication and delay of SIP messages on both sides, every answer pattern of the callees and of the AAA backend, cancellation at every instant',
  NOUA,[B,UA,TM,'sippy/UasStateTrying.py','sippy/UasStateRinging.py','sippy/UasStateProgressing.py','sippy/UacStateTrying.py','sippy/UacStateRinging.py'],
  [('relay of the callee outcome to the caller',B+': CallController.recvEvent'),('server transaction final answer and expiry timer',TM+': sendResponse, timerE')],
  [('server transaction','at most one final answer per INVITE')],['SIP datagrams sent to the caller'])
p('C02','The two legs of a call end together; nobody is left on an orphan leg',
  "Whenever one leg of a call ends for any reason - hang-up, cancel, rejection, timer, lost acknowledgement, dead-peer detection, media time-out, operator command - the other leg is released within a bounded time: by a BYE if it was answered, by a CANCEL (or a BYE after a late answer) if it was still being set up, by a final answer if it was the caller waiting. Once all activity has stopped, every dialog the B2BUA answered or saw answered (within the life of the INVITE transaction) has been closed by a BYE in one direction or the other.",
  ['schedules','fault_sequences','histories'],
  'every moment and reason one leg ends, relative to messages in flight on the other, under loss, duplication, reordering and callers/callees that go silent',
  NOUA,[B,UA,'sippy/UacStateCancelling.py','sippy/UacStateTrying.py','sippy/UaStateFailed.py','sippy/UaStateDisconnected.py',CONN],
  [('cross-leg disconnect',B+': CallController.aDisc, oDisc, disconnect'),('late answer crossing a cancel','sippy/UacStateCancelling.py: UacStateCancelling.recvResponse')],
  [('per-leg dialog','open until BYE or negative final')],['BYE, CANCEL and final answers on both legs'])
p('C03','At most one live outbound attempt per call; no ghost ringing',
  "While a call is being set up the B2BUA never leaves two callees ringing: a new outbound attempt is made only after the previous one was refused or cancelled. Once the caller has abandoned the call or has been given its final answer, no new outbound attempt is started for it, and any attempt still in progress is cancelled (or hung up if it answers late).",
  ['schedules','fault_sequences','configurations'],
  'every route list, timer setting and interleaving of provisional answers, failures, timer expiries and caller cancellation, under message loss and reordering',
  NOUA,[B,'sippy/UacStateTrying.py','sippy/UacStateRinging.py','sippy/UacStateCancelling.py','sippy/UaStateFailed.py'],
  [('failover decision',B+': CallController.recvEvent, placeOriginate'),('cancel of a not yet provisional attempt',TM+': cancelTransaction')],
  None,['INVITE, CANCEL, ACK and BYE sent to callees'])
p('C04','Failover follows the route order, stops where told, relays the last failure',
  "Outbound attempts for a call are made one at a time in exactly the configured order, skipping only routes that are unusable (no credit or zero time-out). Failover continues after an ordinary failure or time-out and stops at a success, at an answer whose code the stop-list names, at a redirection, or at the end of the list; the caller then gets the last callee's failure code and nothing made up in its place. A challenge from a callee on a route that has credentials is answered once with them and is not a failure; a second one is.",
  ['configurations','schedules','fault_sequences'],
  'every route list with per-route stop lists, credit and timers, every sequence of callee outcomes and timings',
  NOUA,[B,'sippy/B2B/Route.py'],[('next route selection',B+': CallController.recvEvent, rDone'),('stop-list','sippy/B2B/Route.py: B2BRoute')],None,['INVITEs to callees; final answer to the caller'])
p('C05','Accounting is exactly-once per call and per outbound leg',
  "When accounting is on, every call that passed authorisation yields exactly one stop record for its caller leg and every outbound attempt made for it yields exactly one stop record of its own, whatever the outcome and however the messages race; when start records are enabled, each leg that connected yields exactly one start record and it precedes the stop record. No record is emitted for calls that were refused before authorisation completed.",
  ['schedules','fault_sequences','histories'],
  'every ordering of signalling events, retransmissions, timers and AAA helper delays, including helpers that fail or answer late',
  'Existing tests never run the accounting code with real signalling; exactly-once over every race of cancel, answer, timer and failover cannot be sampled by hand.',
  [B,'sippy/RadiusAccounting.py','sippy/External_command.py','sippy/Radius_client.py'],
  [('record emission','sippy/RadiusAccounting.py: RadiusAccounting.conn, disc, asend')],None,['records delivered to the AAA helper process'])
p('C06','Billed duration equals real connected time, whatever the clock does',
  "The session time in every stop record equals the time that passed between the connect and the disconnect of that leg (zero for a leg that never connected) to within a second, and the session time in every interim record equals the time connected so far; steps of the wall clock during the call change none of them. (A call the media relay reports dead is billed up to a minute less, the minute without media, and never less than zero.) The set-up, connect and disconnect stamps of a record are consistent with that duration and in order.",
  ['schedules','fault_sequences','histories'],
  'every call timeline with wall-clock steps forward or backward at any moment, event loop stalls, interim intervals and lost messages',
  'A clock step in the middle of a call needs control of both clocks; no existing test touches accounting.',
  ['sippy/RadiusAccounting.py',UA,'sippy/Time/MonoTime.py','sippy/Time/clock_dtime.py'],
  [('duration attributes','sippy/RadiusAccounting.py: disc, asend'),('dual clock','sippy/Time/MonoTime.py: MonoTime')],None,['attributes of records delivered to the AAA helper process'])
p('C07','A prepaid call is cut off when its credit runs out, not before',
  "An answered call is torn down on both legs when the smallest of the credit times that apply to it (authorisation, route, global maximum) has elapsed since it was answered - within a second plus any time the process was stalled - and never earlier on account of credit. Wall-clock steps and re-negotiation during the call do not change the moment.",
  ['configurations','schedules','fault_sequences'],
  'every combination of credit limits, answer times, re-INVITEs, clock steps and stalls',
  'Needs minutes-to-hours of call time under controlled clocks; nothing in the suite drives a call.',
  [B,UA,'sippy/B2B/Route.py','sippy/Time/Timeout.py'],[('credit timer',UA+': credit_expires, startCreditTimer')],None,['BYE on both legs'])
p('C08','Per-route time limits fire when documented, and only then',
  "An outbound attempt that has not been answered within the route's expiry, shown no progress within its no-progress limit, or drawn any reply within its no-reply limit is abandoned at that limit and the call moves on; a limit whose condition was met in time never fires. A group time-out abandons the attempt in progress at its deadline and skips the routes it names, unless no route would be left.",
  ['configurations','schedules','fault_sequences'],
  'every setting of the limits and every timing of replies relative to them, including replies that arrive just before or after',
  'The limits race with replies; no existing test runs a call.',
  [B,'sippy/UacStateIdle.py','sippy/UacStateTrying.py','sippy/UacStateRinging.py',UA],
  [('expiry, no-progress, no-reply timers','sippy/UacStateIdle.py: recvEvent; '+UA+': expires, no_progress_expires, no_reply_expires'),('group time-out',B+': CallController.group_expires')],None,['INVITE and CANCEL to callees'])
p('C09','Every finished call gives back all it held',
  "After a call is over - answered, refused, cancelled, timed out, or broken by faults - and the bounded protocol waiting periods have passed, the B2BUA holds nothing for it: it is not listed as active, has no transactions, no routing entry for further requests, no pending timers and no media relay session. A server that handled any number of calls and became idle is in the same state as one that handled none.",
  ['histories','fault_sequences','schedules'],
  'every history of calls and faults after which traffic stops',
  'A leak needs a particular failing path; tests that never place a call cannot show absence of leaks over all histories.',
  [B,UA,TM],[('call table',B+': CallMap.ccmap, CallController.aDead, oDead'),('transaction tables',TM+': tclient, tserver, req_consumers')],
  [('call, transaction and consumer tables','live per-call state')],['state tables at quiescence; media relay commands'])
p('C10','Client transactions: reliable sending, one outcome, prompt failure',
  "Every request the stack sends over an unreliable network is repeated at the standard back-off until answered, yields exactly one final outcome to its user - the peer's answer, or or a time-out: about 32 seconds after sending when no answer of any kind came, and for an INVITE that drew a provisional answer, when its Expires (300 s by default) has passed - and no provisional after it; each distinct provisional is reported once. Every final answer to an INVITE that arrives before that time-out is acknowledged, each time the peer repeats it.",
  ['schedules','fault_sequences'],
  'every pattern of loss, duplication, delay and reordering of requests, provisional and final answers, cancellations included',
  'No test exercises the transaction layer; the guarantee is about all loss patterns.',
  [TM],[('client transaction',TM+': newTransaction, incomingResponse, timerA, timerB, timerC')],[('tclient','pending client transactions')],['datagrams sent; callbacks to the transaction user'])
p('C11','Server transactions: duplicates are never acted on twice',
  "However often a request is retransmitted or duplicated by the network, it is acted on once, and repeats (within about 32 s of the answer) draw the answer already given, or none while there is none. A final answer to an INVITE is repeated until acknowledged, and an answered call whose acknowledgement never comes is torn down.",
  ['schedules','fault_sequences'],
  'every duplication, reordering and loss of requests, answers and acknowledgements over the life of the transaction',
  'No test exercises the transaction layer; the guarantee is about all duplication patterns.',
  [TM,UA],[('server transaction and duplicate cache',TM+': incomingRequest, sendResponse, timerD, l1rcache')],[('tserver','pending server transactions')],['datagrams sent; requests handed to the user'])
p('C12','Mid-call re-negotiation is relayed faithfully and never wedges the call',
  "A re-INVITE from either party is relayed to the other with its session description and gets exactly one final answer, the other party's; when it is refused, abandoned or collides with one from the other side, the call stays up with its previous parameters and a later re-INVITE or BYE works as before (unless the other party no longer knows the call or does not answer at all, which ends it on both sides). Two colliding re-INVITEs never both succeed half-way: each is answered.",
  ['schedules','fault_sequences','histories'],
  'every interleaving of re-INVITEs, answers, refusals, BYEs and retransmissions from both sides, with loss and delay',
  'Glare and refused re-INVITEs need a particular interleaving; no existing test gets a call to the connected state.',
  [CONN,'sippy/UacStateUpdating.py','sippy/UasStateUpdating.py',UA,B],[('update relay',CONN+': recvRequest, recvEvent')],None,['re-INVITEs, answers and bodies on both legs'])
p('C13','In-call information is relayed exactly once, in order, intact',
  "Every INFO request delivered on one leg of an answered call is relayed on the other leg exactly once, with its body intact and in the order of arrival, and is answered; retransmissions are not relayed again.",
  ['schedules','fault_sequences'],
  'every interleaving of INFO with re-INVITE, BYE and each other, duplicates and retransmissions',
  'No existing test gets a call to the connected state.',
  [CONN,UA],[('INFO relay',CONN+': recvRequest, recvEvent')],None,['INFO requests on the opposite leg'])
p('C14','Each dialog speaks consistent SIP for its whole life',
  "Within every dialog the B2BUA takes part in, its requests carry strictly increasing sequence numbers and the dialog's fixed call-id and tags, an ACK or CANCEL carries the number of the INVITE it belongs to, and all are sent to the peer's current contact or recorded route (with NAT traversal on: the address a phone behind a NAT is seen at). Its answers echo the call-id, sequence number and via list of the request they answer. Every request a party sends within an answered dialog is answered, a BYE, INFO or OPTIONS with success.",
  ['schedules','fault_sequences','histories'],
  'every call history: failover, forking-like retransmits, challenges, re-INVITEs, cancellations, loss and reordering',
  'Parsing tests check single messages; consistency across a history needs whole calls under faults.',
  [UA,TM],[('request generation',UA+': genRequest, lCSeq, isYours')],None,['every datagram the B2BUA sends'])
p('C15','Calls are isolated; bad input harms nobody else',
  "What happens on one call - malformed, misdirected, out-of-state or replayed messages included - never changes the outcome, the media or the accounting of another call, and nothing received from the network stops the server or any call in progress from being served.",
  ['inputs','schedules','histories'],
  'every mix of concurrent calls and arbitrary or corrupted datagrams at any instant',
  'Isolation is a two-run comparison over every interleaving of several calls; parser tests see one message at a time.',
  [TM,B,UA],[('request dispatch',TM+': handleIncoming; '+B+': CallMap.recvRequest'),('dialog matching',UA+': isYours')],None,['SIP traffic and records of the undisturbed calls'])
p('C16','No outbound call is placed without authorisation',
  "With authorisation enabled, nothing is sent to any callee on behalf of a call until the AAA backend accepted that very call; a refusal, or a backend that dies or gives garbage, ends the call with a refusal (a fresh challenge or forbidden) and no outbound attempt. The backend is asked with the credentials, the identity and the network address that very call really came with. Concurrent calls and slow, reordered or failing backend workers never make one call use another's decision, identity or routes.",
  ['schedules','fault_sequences','crash_points'],
  'every number of concurrent calls and workers, every order and delay of backend answers, worker crash at every point, caller cancellation at every point',
  'Attribution under concurrent workers is a race; no test drives the AAA path.',
  [B,'sippy/RadiusAuthorisation.py','sippy/Radius_client.py','sippy/External_command.py'],
  [('AAA gate',B+': CallController.recvEvent, rDone'),('worker pool','sippy/External_command.py: _Worker')],None,['INVITEs to callees; helper process protocol'])
p('C17','Digest challenges are fresh, single-purpose and time-limited',
  "A digest answer is accepted exactly when it was computed with the right password over a challenge this server issued, unmodified, for the offered algorithm, within its validity window (32 s); challenges that were tampered with, invented, or have expired are refused, however the wall clock is stepped. Two challenges are never the same.",
  ['schedules','fault_sequences','histories'],
  'every delay between challenge and answer around the window, clock steps, tampering at any position, algorithm mismatch',
  'The unit test checks a handful of vectors at one instant; the window and clock-step behaviour need a controlled clock.',
  ['sippy/Security/SipNonce.py','sippy/SipAuthorization.py','sippy/SipWWWAuthenticate.py',TM],[('nonce validity','sippy/Security/SipNonce.py: HashOracle.validate_challenge')],None,['401 challenges and their verification'])
p('C18','External helper pool: each job answered once, with its own answer',
  "Every command handed to the external helper pool gets exactly one completion carrying the output of its own command, whichever worker runs it and however many are in flight; a helper that dies, closes its pipes or emits garbage in mid-job neither loses nor misattributes any other job, nor stops the pool from serving later ones (garbage inside an answer may spoil that answer; an answer cut short counts as a failure). Cancelled jobs complete at most once, and after shutdown no helper process or worker remains.",
  ['schedules','crash_points','fault_sequences'],
  'every interleaving of submitters and workers, helper crash at every byte of the protocol, cancellation and shutdown at every point',
  'Races between worker threads and the event loop and helper crashes cannot be staged by the suite.',
  ['sippy/External_command.py'],[('worker loop','sippy/External_command.py: _Worker.run, process_command')],None,['completion callbacks; helper process input'])
p('C19','Timers fire on time, in order, the right number of times',
  "A scheduled call-back runs exactly the requested number of times, never before its due time by the monotonic clock and within one scheduling quantum plus any stall after it, in due-time order; a cancelled one never runs again, whoever cancels it and when - from anywhere in the event loop. Calls handed over from other threads run once, in the loop, in the order each thread made them, and a synchronous one gets its own result; signals are dispatched to their handlers. Wall-clock steps have no influence.",
  ['schedules','fault_sequences','histories'],
  'every set of one-shot, repeating, rescheduled and cancelled timers created from any call-back, with stalls and clock steps',
  'Timer tests use a few fixed delays on the real clock.',
  ['sippy/Core/EventDispatcher.py','sippy/Time/Timeout.py','sippy/Time/MonoTime.py'],[('timer heap','sippy/Core/EventDispatcher.py: EventDispatcher2.dispatchTimers, go')],None,['call-back invocation times'])
p('C20','Media relay commands get exactly one answer or one failure each',
  "Every command sent to a media relay over the unreliable control channel completes exactly once: with the relay's own answer to that command, or with a failure within its time limit if there is none (3 s; 10 s for queries about the relay, 1 s for statistics; longer for relays known to be slow), after which the relay is considered down; late or duplicate answers are never attributed to another command. A relay that is down is put back in service when it responds again, and loss of some datagrams alone never takes it out of service.",
  ['schedules','fault_sequences'],
  'every pattern of loss, duplication, delay and reordering of commands and answers; relay restart and partition',
  'The suite checks one happy exchange; exactly-once over every loss pattern needs a controlled network.',
  ['sippy/Rtp_proxy/Client/udp.py','sippy/Rtp_proxy/client.py','sippy/Rtp_proxy/Client/net.py'],[('command retransmission and matching','sippy/Rtp_proxy/Client/udp.py: send_command, retransmit, process_reply')],None,['completion call-backs; datagrams'])
p('C21','Stream media-relay channel keeps command/answer pairing across faults',
  "Over a stream control channel every command completes exactly once with its own answer or with a failure, however the stream is cut into pieces, stalled for a while or broken and re-established, and concurrent commands never get each other's answers.",
  ['schedules','fault_sequences','crash_points'],
  'every segmentation, delay and connection failure point of the stream, every number of concurrent commands and workers',
  'Segmentation and reconnect races between worker threads are not reachable from the suite.',
  ['sippy/Rtp_proxy/Client/stream.py'],[('worker','sippy/Rtp_proxy/Client/stream.py: _RTPPLWorker.send_raw, run')],None,['completion call-backs'])
p('C22','Media relay sessions follow the call and are always released',
  "When a media relay is configured, every session opened on it for a call is deleted exactly once, when the call is over, whatever the outcome, so the relay is never left holding sessions of dead calls; both parties of an answered call are given the relay's address for their media, never each other's. If the relay fails while a call is set up the call is refused or served by another relay, not left hanging, and a failure during a later update ends the call on both legs or leaves it as it was. A media time-out the relay reports ends that call and no other. The session descriptions sent in a dialog keep a consistent version.",
  ['schedules','fault_sequences','histories'],
  'every call outcome and relay failure, command loss or delay at any point of the call',
  'No test runs calls with a media relay.',
  ['sippy/Rtp_proxy/session.py','sippy/Rtp_proxy/Session/update.py','sippy/Rtp_proxy/Session/side.py',B],[('session life','sippy/Rtp_proxy/session.py: Rtp_proxy_session.delete'),('SDP rewriting','sippy/Rtp_proxy/Session/update.py')],None,['relay commands and session description bodies'])
p('C23','Dead peers are detected, live ones are never hung up on',
  "With keep-alives on, an answered call whose peer stopped responding is torn down on both legs within the keep-alive interval plus the transaction time-out (a peer that has not answered any keep-alive since it last agreed on the media may not support them, and gets ten minutes more). A peer that answers keep-alives with anything that shows it still knows the call (a challenge included, which is answered with the route's credentials) is never disconnected by them, even when some datagrams are lost.",
  ['schedules','fault_sequences'],
  'every moment and duration of peer silence, loss pattern and answer code to keep-alives, concurrent re-INVITE and BYE',
  'Needs long call time under a controlled network.',
  [UA,CONN],[('keep-alive',UA+': keepAlive, keepAliveResp'),],None,['keep-alive requests; BYE on both legs'])
p('C24','Graceful stop and restart lose no call and strand no peer',
  "On a stop request every call in progress is torn down with proper signalling on both legs and new calls are refused with 503, after which the process exits in bounded time; on a safe-restart request calls in progress continue undisturbed, new ones are refused with 503, and the process replaces itself once - and only when - no call is left (calls being authorised or torn down included). A hang-up signal ends all calls in progress but leaves the server serving.",
  ['crash_points','schedules','histories'],
  'every instant of delivery of each signal relative to every state of the calls in progress',
  'Needs signals at arbitrary points of calls; nothing in the suite does so.',
  [B,TM],[('signal handling',B+': CallMap.safeStop, safeRestart, discAll'),],None,['SIP traffic, process exit and exec'])
p('C25','Operator console commands act as documented at any moment',
  "The operator console lists every call in progress once, with its parties, and none that never came (calls that ended stay listed only while being wound up); it disconnects exactly the call or calls named (both legs), and answers every command, valid or not, whatever states the calls are in. No command, partial line, burst or abrupt disconnection of a console stops the server or disturbs other calls and other consoles (input that is not text closes that console only), a console that half-closed still gets its answers, and connections that are over are released.",
  ['inputs','schedules','fault_sequences'],
  'every command sequence, segmentation and disconnect point, at every state of the calls in progress',
  'The suite opens the console once with a trivial echo.',
  ['sippy/B2B/SimpleAPI.py','sippy/CLIManager.py'],[('console commands','sippy/B2B/SimpleAPI.py: recvCommand'),('connection handling','sippy/CLIManager.py')],None,['console replies; SIP traffic'])
p('C26','Asynchronous log keeps order and loses nothing it accepted unless overloaded',
  "Log records reach the file (or the system log) whole, with their own call's id, in the order they were logged and at most once; none is lost unless more than the documented backlog (1000) piled up, in which case the oldest go first, or the file operations on that very record failed. Re-opening the file after rotation and closing it lose nothing logged before and are done whatever the backlog; after closing no thread or file is left. Logging never waits for the file.",
  ['schedules','fault_sequences','crash_points'],
  'every interleaving of writers with the logging thread, rotation and shutdown, slow and failing file operations',
  'Thread interleavings and disk errors are not controlled by the suite.',
  ['sippy/SipLogger.py','sippy/Signal.py'],[('async logger','sippy/SipLogger.py: AsyncLogger')],None,['log file content'])
p('C27','The datagram server neither reorders, duplicates nor dies',
  "Every datagram accepted for sending is sent at most once, to its own destination, in order per destination (with a single sending worker), and every datagram received is handed to the application at most once; transient socket errors, name lookups that are slow or fail, and bursts lose only the datagrams concerned and delay no more than those queued behind them on the same sender, and after shutdown no worker thread is left.",
  ['schedules','fault_sequences'],
  'every interleaving of sender, receiver and resolver threads, every transient socket error at any call',
  'Socket errors and thread interleavings cannot be produced by the suite.',
  ['sippy/Udp_server.py','sippy/Network_server.py'],[('sender, receiver, resolver threads','sippy/Udp_server.py: AsyncSender, AsyncReceiver; sippy/Network_server.py')],None,['socket calls; hand-off to the application'])
p('C28','A registration never lapses while the registrar is reachable',
  "The registration client keeps its binding alive: it re-registers before the granted lifetime ends, answers challenges with correct credentials a bounded number of times, retries after failures (an unusable answer included) at the retry interval (60 s) for ever, never floods the registrar, and reports each success and failure to its owner once; after it is stopped it starts no further registration (copies of one under way apart).",
  ['schedules','fault_sequences'],
  'every loss, delay, challenge, refusal and outage pattern of the registrar, start and stop at any time',
  'Needs hours of protocol time under faults.',
  ['sippy/SipRegistrationAgent.py',TM],[('refresh and retry','sippy/SipRegistrationAgent.py: gotreply, doregister')],None,['REGISTER requests; owner call-backs'])
p('C29','The stateful relay forwards each request and its answers exactly once',
  "A request handled by the forwarding function is sent on exactly once per request (retransmissions apart), with the hop limit reduced, and each answer goes back to the requester with its own via list restored, provisional answers first and exactly one final; a request whose hop limit is exhausted or whose next hop stays silent is answered with the proper failure.",
  ['schedules','fault_sequences'],
  'every loss, duplication and reordering on both sides of the relay, concurrent requests',
  'No test runs the relay.',
  ['sippy/StatefulProxy.py',TM],[('forwarding','sippy/StatefulProxy.py: recvRequest, recvResponse')],None,['datagrams on both sides'])
p('C30','The media end point neither loses nor corrupts audio and shuts down cleanly',
  "Audio handed to a media end point that has a peer is sent once, in order and without alteration (silence fills up the last packet of a chunk), one packet of the packet time per pacing slot as long as audio is waiting, with consecutive sequence numbers and timestamps that advance by one packet time per slot; the progress counters (frames taken, frames done) match what was sent. Only packets of the present peer are listened to; what the jitter buffer releases, with silence for what was lost, is handed to the present consumer in pieces of 100 ms in order, nothing skipped, repeated or held back beyond one piece. Re-targeting and shutdown at any moment neither raise in the caller or in a media thread nor block for ever; after shutdown() nothing is sent or delivered any more and all sockets, and with the last end point the shared threads, are gone.",
  ['schedules','fault_sequences'],
  'every interleaving of the audio producer, the pacing thread, the network thread, update(), connect() and shutdown() of several end points that share the threads; packet loss, duplication, reordering, a full send queue, failing binds, late wake-ups',
  'The only test of the end point is skipped where rtpsynth is not installed, and it samples no interleaving.',
  ['sippy/Rtp/EPoint.py','sippy/Rtp/OutputWorker.py','sippy/Rtp/Ingest.py','sippy/Rtp/Singletons.py','sippy/Rtp/Codecs/G711.py','sippy/Rtp/Codecs/G722.py'],
  [('pacing callback','sippy/Rtp/OutputWorker.py: RTPOutputWorker._proc_in'),('life cycle','sippy/Rtp/EPoint.py: update, shutdown, send_pkt'),('shared threads','sippy/Rtp/Singletons.py')],None,['packets sent, audio delivered, resources left'])
p('C31','Media outside of the payload policy never reaches the other party',
  "With a list of allowed payload types configured (-F), no session description relayed to either party - in a call request, a provisional or final answer, an acknowledgement or a re-negotiation, with or without a media relay - offers an RTP audio or video payload type outside of the list (entries given by name are looked up in that description), nor describes one it does not offer; the allowed types all stay, in their order, and media that are not RTP are left alone. A description in which some RTP medium has no allowed type left is relayed to nobody: its request is refused, or the call it answers is not put through. A call is not refused (488) for the policy when every description in it has allowed types.",
  ['schedules','fault_sequences','inputs'],
  'every carrier of a description, crossing and repeat of messages, fail-over, late answer and relay failure; every mix of payload types and media',
  NOUA,
  [B,CONN,'sippy/UacStateTrying.py','sippy/UacStateRinging.py','sippy/UacStateUpdating.py','sippy/UasStateIdle.py','sippy/SdpMediaDescription.py'],
  [('policy filter','sippy/b2bua.py: CallController.filter_SDP'),('filter hooks','sippy/b2bua.py: placeOriginate; on_remote_sdp_change in the UA states')],None,['SDP in every datagram sent'])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P:
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d) + '\n')
    print(len(P))
