"""The properties: one entry each."""

SCHED = ["schedules", "histories"]
NOTE = ("Every path of the analysed event handlers is covered (calls, closures and awaited futures inlined; correlated branches "
        "distinguished by enum variants and booleans), so a held rule is a statement about all inputs and schedules for the "
        "structural clause it names. ")
TRUST = "Trusted: rustc's MIR, the extraction driver, the models of std/tokio combinators, and the storage/network contracts."

PROPS = []


def P(id, title, statement, over, quant, why, files, mech, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=NOTE + note + " " + TRUST, **kw))


E = "openraft/src/engine/"
R = "openraft/src/core/raft_core.rs"
RP = "openraft/src/replication/mod.rs"

P("P01", "A node's vote never goes backwards and is stored before it is acted on",
  "The vote a node holds is only ever replaced by a vote that compares greater or equal. "
  "Whenever it changes, saving the new vote to the log store is scheduled before any other effect of that event, commands take effect in the order they were scheduled, and nothing (own grant, log write, request, reply) is reported for a new vote until its save has succeeded.",
  ["schedules", "histories", "crash_points"], "every order of elections, RPCs, responses and timer ticks, and a crash between any two storage operations",
  "tests drive a handful of message orders against a store that never fails between steps; the property is over all orders and crash points",
  [E + "engine_impl.rs", E + "handler/vote_handler/mod.rs", E + "engine_output.rs", R],
  [("VoteHandler::update_vote", E + "handler/vote_handler/mod.rs"), ("EngineOutput command queue", E + "engine_output.rs"), ("RaftCore::run_command SaveVote arm", R)],
  "Decides: every replacement of the vote is dominated by a >= comparison of the same value; SaveVote of that value is the next command on every path; FIFO queue; the executor awaits the save and propagates its error.")

P("P02", "Nothing is acknowledged before it is durable",
  "A positive reply to a vote request, to an append request, to a snapshot installation and to a cluster initialization is sent only after every vote and log entry this node accepted up to that reply, as well as the installed snapshot, has been reported stored by the storage. "
  "An append request that writes nothing is likewise acknowledged only after the earlier, still pending writes of the entries it covers. "
  "A write is counted as stored only when the storage reported its success, and the position up to which writes are stored never moves back, also when a snapshot is installed while writes are pending or behind entries that are already accepted.",
  ["schedules", "crash_points", "histories"], "every interleaving of storage completions with requests, and a crash at any moment after a reply",
  "the in-memory test store completes at once, so an early acknowledgement is invisible to the tests",
  [E + "engine_impl.rs", E + "handler/following_handler/mod.rs", E + "command.rs", "openraft/src/raft_state/io_state.rs", R, "openraft/src/storage/callback.rs"],
  [("Respond with Condition::IOFlushed", E + "command.rs"), ("IOState accepted/submitted/flushed", "openraft/src/raft_state/io_state.rs"), ("RaftCore::run_command condition check", R), ("IOFlushed callback", "openraft/src/storage/callback.rs")],
  "Decides: each successful reply carries a wait condition on the latest accepted io (no accept or write between reading the id and queueing the reply); the executor tests the condition before running the command; the flushed position is written only from completion notifications of the storage; a snapshot is installed only when all submitted writes are flushed, and stands for the greatest accepted one.")

P("P03", "A vote is granted only to a candidate that may become leader",
  "A node answers a vote request with a grant only if the candidate's last log id is at least its own, the requested vote is at least its own vote, and no unexpired lease of an established leader is running at this node. "
  "A granted vote becomes the node's own vote; a request from a candidate with an older log changes neither the vote nor the lease.",
  ["schedules", "inputs", "histories"], "all combinations of local vote, lease state, local log and request contents",
  "unit tests sample a few combinations of vote, log and lease values",
  [E + "engine_impl.rs", E + "handler/vote_handler/mod.rs", "openraft/src/utime.rs", R],
  [("Engine::handle_vote_req", E + "engine_impl.rs"), ("Leased::is_expired", "openraft/src/utime.rs")],
  "Decides: on each path class in which the reply's grant flag can be true, the three comparisons have been taken with the right outcome on the right operands, and the vote was recorded.")

P("P04", "A leader is elected only by a quorum of grants for its own current vote",
  "An election is started only by a voter of the node's effective membership, for a term one above the node's current term and with the node's own id; its requests carry the node's last log id, and they are sent only after its own vote has been saved. "
  "The node becomes leader only when a quorum of the voters in its effective membership (itself included only after its save succeeded) granted exactly that vote; grants for an older vote, rejections, and responses attributed to another node are never counted.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of vote responses (late, duplicated, rejected) with restarts of the election",
  "tests deliver a few response orders; late and duplicate responses to older elections are unbounded",
  [E + "engine_impl.rs", "openraft/src/proposer/candidate.rs", E + "handler/establish_handler/mod.rs", R],
  [("Engine::elect", E + "engine_impl.rs"), ("Engine::handle_vote_resp", E + "engine_impl.rs"), ("RaftCore::spawn_parallel_vote_requests", R)],
  "Decides: value of every vote request; guards of every grant and of every leader creation; the quorum is built from the effective membership; the response is attributed to the asked node.")

P("P05", "A leader commits only entries of its own term stored by a quorum",
  "The committed position of a leader advances only to a position that a quorum of the voters of the effective (possibly joint) membership have acknowledged storing in the leader's current session, and only if the entry there was proposed under the leader's own vote. "
  "Acknowledgements by learners, of other sessions, or of older leaders never count, and the committed position never moves backwards. "
  "A follower's acknowledgement counts only up to the position the follower accepted, whatever the order in which the followers' acknowledgements arrive.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of replication responses, membership changes and leader changes",
  "tests use small clusters with orderly responses; stale or partial acknowledgements combined with membership changes are unbounded",
  ["openraft/src/progress/mod.rs", E + "handler/replication_handler/mod.rs", "openraft/src/replication/mod.rs", R],
  [("VecProgress::update_with", "openraft/src/progress/mod.rs"), ("ReplicationHandler::update_matching / try_commit_quorum_accepted", E + "handler/replication_handler/mod.rs"), ("ReplicationCore::send_log_entries", "openraft/src/replication/mod.rs")],
  "Decides: every write of the committed position, its source and its guards; the quorum call, the counted prefix of the progress vector and that it is in order after every change of a value; the attribution and session filter of every progress report; what the replication task reports per response kind.")

P("P06", "A follower commits only what it accepted from the current leader",
  "The committed position of a follower becomes the smaller of the leader's committed position and the last entry it accepted from that same leader; it never exceeds it and never moves backwards. "
  "An append request that was rejected or conflicted commits nothing.",
  ["schedules", "histories"], "every order of append requests of several leaders, with gaps, duplicates and conflicts",
  "tests do not produce followers with a longer conflicting log receiving a heartbeat with a high committed position in all orders",
  [E + "engine_impl.rs", E + "handler/following_handler/mod.rs", "openraft/src/raft_state/mod.rs", "openraft/src/raft_state/io_state/log_io_id.rs"],
  [("Engine::handle_commit_entries", E + "engine_impl.rs"), ("FollowingHandler::commit_entries", E + "handler/following_handler/mod.rs"), ("RaftState::update_committed", "openraft/src/raft_state/mod.rs")],
  "Decides: the value and guards of every committed write on the append path; the accepted log position is reset when the vote changes.")

P("P07", "Log matching: entries are accepted only where they fit",
  "A node takes over entries of a leader only if it has the entry that precedes them with the same log id (or has committed past it); otherwise it answers a conflict and its log does not change. "
  "Of the entries offered, it keeps those it already has, removes its own entries from the first differing one on, and appends exactly the missing ones, in memory and in the store alike. "
  "A leader never removes or rewrites its own entries; it gives new entries consecutive indexes in its own term, and sends a follower a range that starts right after the predecessor it names.",
  ["inputs", "schedules", "histories"], "every combination of local log, request and purge position",
  "tests cover a few log shapes; the matching rule must hold for all of them and for all histories of leaders",
  [E + "engine_impl.rs", E + "handler/following_handler/mod.rs", E + "handler/leader_handler/mod.rs", E + "log_id_list.rs", "openraft/src/raft_state/mod.rs", "openraft/src/progress/entry/mod.rs"],
  [("FollowingHandler::ensure_log_consecutive / append_entries", E + "handler/following_handler/mod.rs"), ("RaftState::assign_log_ids / first_conflicting_index", "openraft/src/raft_state/mod.rs"), ("ProgressEntry::next_send", "openraft/src/progress/entry/mod.rs")],
  "Decides: the guards on every append and truncation, the indices they use, the equality of in-memory and commanded changes, and the term/index of leader-assigned ids.")

P("P36", "A leader never gives one log id to two entries",
  "A leader gives every new entry the next index after its last one, under its own leader id, and records the last id it gave; entries received from another leader keep their ids. "
  "A new leader continues after the last entry of its own log, and a leader in office is replaced only by the leader of another vote. "
  "A restarted node does not propose under a vote it already proposed under.",
  ["inputs", "schedules", "crash points"], "every batch, every way to become leader, every crash between sending and flushing an entry",
  "two entries with one id diverge silently, and only for particular crash points or batch shapes",
  ["openraft/src/proposer/leader.rs", "openraft/src/proposer/candidate.rs", E + "handler/leader_handler/mod.rs", E + "handler/vote_handler/mod.rs", E + "engine_impl.rs"],
  [("Leader::assign_log_ids / new", "openraft/src/proposer/leader.rs"), ("RaftState::new_leader", "openraft/src/raft_state/mod.rs"), ("VoteHandler::become_leader", E + "handler/vote_handler/mod.rs"), ("Engine::startup", E + "engine_impl.rs")],
  "Decides: value and advance of every id given, the recorded last id, the start position and vote of every new leader, the guards of replacing a leader, and whether start-up can create a leader. "
  "The last part is a known finding: a node restarted with its own granted vote leads again and reuses the ids of entries it had sent but not flushed.")

P("P35", "Replication to a follower has one request in flight and never stalls",
  "A leader prepares a new request for a follower only while none is in flight: it starts within the range that may still match and after what is purged, holds at most the configured number of entries, and is a snapshot exactly if needed entries are purged. "
  "The position known to match moves only to a reported one, a conflict ends the search at the conflicting position, and a request in flight is forgotten when it is answered or failed or its stream is rebuilt, and only then. "
  "Every request is answered (success, conflict, error or higher vote), a partly accepted one goes on with exactly the rest, heartbeats are never reported as answers, and before waiting for events a leader tries every follower that is idle and misses entries.",
  ["inputs", "schedules"], "every interleaving of requests, heartbeats, replies, errors, backoffs and membership changes",
  "a lost or doubled answer stalls or crashes replication only after a particular error at a particular step",
  ["openraft/src/progress/entry/mod.rs", "openraft/src/progress/inflight/mod.rs", E + "handler/replication_handler/mod.rs", RP, R],
  [("ProgressEntry::next_send / update_matching / update_conflicting", "openraft/src/progress/entry/mod.rs"), ("ReplicationHandler::update_progress / initiate_replication / rebuild_replication_streams", E + "handler/replication_handler/mod.rs"), ("ReplicationCore::main / process_event / send_snapshot", RP), ("RaftCore::runtime_loop", R)],
  "Decides: guards and values of every write of the per-follower progress, and on all paths of the replication task that a request is answered, continued or kept before the next event is received. Not decided: that the search converges, and timing. "
  "Fixed: a heartbeat refused as too large was retried as a request whose answer made the leader panic.")

P("P08", "Committed entries are never truncated",
  "A node removes log entries from the end of its log only at indexes strictly above its committed position, or when a snapshot covering more than it has committed replaces the log. "
  "The log store is truncated only at exactly the index decided, and a stored tail is never dropped for any other reason.",
  ["histories", "schedules"], "every history of leader changes, conflicts and snapshot installations",
  "tests truncate in a few hand-made situations",
  [E + "handler/following_handler/mod.rs", E + "engine_impl.rs", R, E + "log_id_list.rs"],
  [("FollowingHandler::truncate_logs / install_full_snapshot", E + "handler/following_handler/mod.rs"), ("RaftCore::run_command TruncateLog arm", R)],
  "Decides: each truncation's start against the committed position, and the executor's only call of the store's truncate.")

P("P09", "Logs are purged only when a stored snapshot covers them",
  "Log entries are removed from the beginning of the log only up to a position covered by this node's own snapshot, only after that snapshot has been stored, and the purged position never moves backwards. "
  "A leader does not purge entries that it is currently sending to a follower.",
  ["schedules", "histories", "crash_points"], "every interleaving of snapshot building, installation, purge triggers and replication",
  "a purge that is early by one event is only visible after a crash or for a slow follower",
  [E + "handler/log_handler/mod.rs", E + "handler/following_handler/mod.rs", E + "handler/replication_handler/mod.rs", E + "engine_impl.rs", R],
  [("LogHandler::calc_purge_upto / update_purge_upto", E + "handler/log_handler/mod.rs"), ("ReplicationHandler::try_purge_log", E + "handler/replication_handler/mod.rs"), ("Condition::Snapshot", E + "command.rs")],
  "Decides: bounds of each purge position, the wait condition of each purge command, the writers of the stored-snapshot position, and the in-use check of the leader.")

P("P10", "Committed entries are applied once, in order, without gaps",
  "Whenever the committed position advances, applying exactly the entries after the previously committed (already scheduled) position up to the new one is scheduled, in that order. "
  "The state machine is given exactly these entries, each once and in log order, and the applied position reported is the last of them.",
  ["schedules", "histories"], "every sequence of commits, on leaders and followers, including restarts",
  "tests observe only the final state of a few runs",
  [E + "handler/following_handler/mod.rs", E + "handler/replication_handler/mod.rs", R, "openraft/src/core/sm/worker.rs", "openraft/src/core/sm/handle.rs"],
  [("Command::Apply", E + "command.rs"), ("RaftCore::apply_to_state_machine", R), ("sm::Worker::apply", "openraft/src/core/sm/worker.rs")],
  "Decides: the range of every Apply against the committed position it follows; the range read from the log and passed on; the sequential loop of the worker.")

P("P12", "Storage and network effects happen in the order they were decided",
  "The effects an event asks for (vote saves, log appends, truncations, purges, state machine requests, replies, RPCs) are carried out one after another in the order decided; an effect that waits for a condition holds back everything after it and runs once the condition is met. "
  "The record of accepted, submitted and flushed io moves along with exactly these effects.",
  ["schedules"], "every interleaving of events and storage completions",
  "reordering shows only when a completion arrives late, which the test store never does",
  [E + "engine_output.rs", R, E + "command.rs", "openraft/src/raft_state/io_state.rs"],
  [("RaftCore::run_engine_commands", R), ("Command::condition", E + "command.rs"), ("IOState", "openraft/src/raft_state/io_state.rs")],
  "Decides: FIFO discipline of the queue, postponed commands are pushed back to the front and stop the run, conditions are tested with the accessor of the same io kind.")

P("P34", "The state machine task handles one request at a time, in order",
  "Requests to the state machine are handled strictly one after another in the order they were sent: a request is taken only after the previous one has finished (building a snapshot may continue in the background). "
  "Each apply request applies exactly its entries and reports the last applied id of them; each installation installs the received snapshot before it is reported done.",
  ["schedules"], "every interleaving of applies, snapshot installations and reads",
  "tests rarely have two requests queued",
  ["openraft/src/core/sm/worker.rs", "openraft/src/core/sm/handle.rs"],
  [("sm::Worker::worker_loop", "openraft/src/core/sm/worker.rs")],
  "Decides: no request is taken while another is unfinished; what each arm does and reports on every path.")

P("P17", "Reports of an old session never influence replication state",
  "A replication or heartbeat report updates the leader's view of a follower only if it belongs to the vote the leader currently holds and to the replication session of the current membership configuration. "
  "Reports of an earlier leadership or an earlier membership change nothing.",
  ["schedules", "histories"], "every interleaving of late reports with leader and membership changes",
  "a late report needs a membership change that removes and re-adds a node while a response is in flight",
  [R, E + "handler/replication_handler/mod.rs", "openraft/src/replication/replication_session_id.rs"],
  [("RaftCore::does_replication_session_match", R), ("RaftCore::does_vote_match", R)],
  "Decides: the guards of each progress update.")

M = "openraft/src/membership/membership.rs"
MS = "openraft/src/raft_state/membership_state/"

P("P13", "Membership changes keep quorums overlapping",
  "A leader proposes a membership only while its current one is committed, and the proposed voter configuration is either unchanged, one voter set the current configuration already contains, or the last current set jointly with the target set, where the target is computed from the last current set as requested; an empty voter set or a voter without a node is refused. "
  "A proposed membership is used at once by the leader, for counting commits, for its lease and as the set of replication targets. "
  "The user-level change reports success only when the final, non-joint configuration is in place.",
  ["schedules", "inputs", "histories"], "every membership, every change request and every interleaving with commits",
  "tests try a few configurations; the overlap must hold for every pair of voter sets",
  [M, MS + "change_handler.rs", "openraft/src/quorum/coherent_impl.rs", R, E + "handler/replication_handler/mod.rs", "openraft/src/raft/impl_raft_blocking_write.rs"],
  [("Membership::change / next_coherent / ensure_valid", M), ("ChangeHandler::ensure_committed", MS + "change_handler.rs"), ("find_coherent", "openraft/src/quorum/coherent_impl.rs"), ("Raft::change_membership", "openraft/src/raft/impl_raft_blocking_write.rs")],
  "Decides: guards of each membership proposal, the shape of each proposed configuration, the validity tests on the way to it, the rebuild of progress and replication, and the two-step client call.")

P("P14", "The membership in use is the last one in the log",
  "A node uses the membership of the last membership entry in its log: appending one makes it effective and keeps the previous one as the committed one, removing it by truncation reverts to the committed one, and the effective one is marked committed exactly when a committed position covers it. "
  "A follower adopts the last two memberships of the entries it appends; a membership from a snapshot replaces only older ones, and installing a snapshot over a log that does not contain the snapshot's last entry drops a membership that is not committed. "
  "A node's role (voter or learner, leader or follower) is updated along with the effective membership.",
  ["schedules", "histories"], "every sequence of appends, truncations, commits and snapshot installations",
  "needs a truncated membership entry, or two memberships in one request; few tests produce them",
  [MS + "mod.rs", E + "handler/following_handler/mod.rs", E + "handler/replication_handler/mod.rs", E + "handler/leader_handler/mod.rs"],
  [("MembershipState", MS + "mod.rs"), ("FollowingHandler::append_membership", E + "handler/following_handler/mod.rs")],
  "Decides: who writes the effective and committed membership, with what value under what guard, and that every append, truncation and commit is followed by the update.")

P("P25", "A quorum is a majority of every voter set",
  "A set of nodes satisfies a plain voter set exactly if it contains more than half of its members, nodes outside the set counting for nothing; it satisfies a joint configuration exactly if it satisfies each of its voter sets. "
  "The quorum condition derived from a membership contains all of its voter sets.",
  ["inputs"], "every voter set, every joint configuration and every set of nodes",
  "tests enumerate a few small sets",
  ["openraft/src/quorum/quorum_set_impl.rs", "openraft/src/quorum/joint_impl.rs", "openraft/src/quorum/joint.rs", M],
  [("QuorumSet::is_quorum", "openraft/src/quorum/quorum_set_impl.rs"), ("Joint::is_quorum", "openraft/src/quorum/joint.rs"), ("Membership::to_quorum_set", M)],
  "Decides: the comparison deciding each implementation (its closed form checked for all set sizes up to 64), membership tests of what is counted, all-sets quantification for joint sets. ",
  technique="dataflow over MIR: closed form of the deciding comparison, guard dominance")

RAW = "openraft/src/raft/mod.rs"

P("P15", "Linearizable reads see everything committed before them",
  "A leader answers a linearizable-read request successfully only after a quorum of its effective membership, itself included, accepted its vote in answer to requests sent for this read; a node that failed, or answered with a higher vote, does not count. "
  "The read position it reports is at least the committed position at the time of the request and at least the first log of its own leadership. "
  "The linearizable-read call returns success only once the local state machine has applied up to that position.",
  ["schedules", "histories"], "every interleaving of reads, writes, elections and late answers",
  "a stale read needs a new leader elected while the old one serves a read; tests do not produce it",
  [R, RAW, "openraft/src/metrics/wait.rs"],
  [("RaftCore::handle_check_is_leader_request", R), ("Raft::ensure_linearizable", RAW)],
  "Decides: guards of the successful answers (quorum, effective membership, no higher vote), the dataflow of the reported position, and that the public call returns only through the wait.")

P("P18", "Every request gets its answer",
  "Each request accepted by the node (append, vote, snapshot, client write, read check, initialize, membership change) is answered exactly by its own handling: on every path its response channel is used, stored for later, or handed to a task that uses it on every path; it is never silently dropped. "
  "Every response the protocol logic decides on is sent, and the state machine task answers each request that expects an answer.",
  ["schedules", "inputs"], "every request in every state of the node",
  "a dropped channel shows only on rarely taken error paths",
  [R, "openraft/src/core/sm/worker.rs", E + "command.rs"],
  [("RaftCore::handle_api_msg", R), ("Respond::send", E + "command.rs"), ("sm::Worker::worker_loop", "openraft/src/core/sm/worker.rs")],
  "Decides: ownership of each response channel: no path from a request to the end of its handling avoids every consumer of its channel. (Shutting down or a fatal error drops the channels; that is P24.)")

P("P19", "A client write gets the result of its own entry",
  "A client write is answered with success only after the entry proposed for it has been applied on this node, with the log id, the response and the membership of exactly that entry. "
  "A write whose entry is truncated is answered with an error telling the client to use another leader; a waiting client is never silently forgotten when its entry is applied, truncated or replaced by a snapshot.",
  ["schedules", "histories"], "every interleaving of writes, applies in batches, truncations and leader changes",
  "a mixed-up answer needs truncation and re-proposal at the same index, or batches with particular boundaries",
  [R, "openraft/src/core/sm/worker.rs"],
  [("RaftCore::write_entry", R), ("RaftCore::handle_apply_result", R), ("sm::Worker::apply", "openraft/src/core/sm/worker.rs")],
  "Decides: the key under which a client is registered, what is reported for which index, that the three sequences of an apply report advance together, and that channels taken out are answered. "
  "A client waiting for an entry that an installed snapshot replaces is a known finding: it is never answered (findings/p19-write-replaced).")

P("P20", "Leadership transfer is orderly",
  "While a leader is transferring its leadership it proposes no client entry and no membership and sends no heartbeats, and it gives up its lease. "
  "Another node gives up the lease it granted only on a transfer request of its current leader, and only the node chosen as the next leader starts an election, after waiting, for a bounded time, until its log is as long as the leader's log was.",
  ["schedules", "histories"], "every interleaving of transfers with writes, heartbeats and elections",
  "the existing transfer test covers one uncontested transfer",
  [R, RAW, E + "handler/leader_handler/mod.rs", E + "engine_impl.rs"],
  [("LeaderHandler::transfer_leader", E + "handler/leader_handler/mod.rs"), ("RaftCore::handle_transfer_leader", R), ("Raft::handle_transfer_leader", RAW)],
  "Decides: guards of proposals, heartbeats, lease release and election on both sides; the wait before the election.")

HB = "openraft/src/core/heartbeat/worker.rs"

P("P16", "A node that learns of a higher vote adopts it and stops leading",
  "A refusal of a vote request, of a replication request, of a heartbeat or of a snapshot transfer that names a higher vote is reported, with the vote the request was sent under, by the task that received it. "
  "A node adopts the higher vote it learns of in this way or from a request of another leader, unless the vote it asked under is no longer its own. "
  "Whenever a node's vote becomes another node's, it stops leading and campaigning before anything else is handled.",
  ["schedules", "histories"], "every interleaving of refusals, requests and elections",
  "a leader that misses one particular kind of refusal keeps leading only under message patterns the tests do not produce",
  [E + "handler/vote_handler/mod.rs", E + "engine_impl.rs", RP, HB, R],
  [("VoteHandler::update_vote", E + "handler/vote_handler/mod.rs"), ("HigherVote notification", R), ("ReplicationCore::send_log_entries", RP), ("HeartbeatWorker::do_run", HB)],
  "Decides: each path from a refusal to the end of the task's handling reports it; each path from a report or request to the end of handling writes the vote or has found it not higher; each vote write is followed by dropping leader and candidate state. "
  "Fixed: a heartbeat refused for a higher vote was not reported.")

P("P21", "A leader's lease is extended only by accepted requests, as of sending time",
  "A leader counts a node as having acknowledged its leadership only because of a request that node accepted, attributed to the node that was asked, and only as of a moment before the request was sent. "
  "A refusal, an error or a missing answer never counts. "
  "The heartbeats it sends carry its own vote and its committed position.",
  ["schedules", "histories"], "every interleaving of heartbeats, replication, snapshots, refusals and delays",
  "an over-long lease shows only when a delayed answer meets an election",
  [HB, RP, R, "openraft/src/proposer/leader.rs"],
  [("HeartbeatWorker::do_run", HB), ("ReplicationCore::notify_heartbeat_progress", RP), ("LeaderHandler clock_progress", "openraft/src/proposer/leader.rs")],
  "Decides: guards and dataflow of each acknowledgement report (whose, when) and of each clock update. "
  "Fixed: a heartbeat refused for a higher vote extended the lease.")

ST_ = "openraft/src/network/snapshot_transport.rs"
SH = E + "handler/snapshot_handler/mod.rs"
SW = "openraft/src/core/sm/worker.rs"

P("P22", "Only a newer snapshot from an accepted leader is installed, as a whole",
  "A node installs a received snapshot only if the sender's vote is at least its own and the snapshot covers more than the node has committed and more than its current snapshot; otherwise its state does not change. "
  "An installation makes the snapshot's last log id the committed position and the snapshot's metadata the node's snapshot metadata, and is reported, with exactly the applied and stored position of that snapshot, only after the state machine has installed it. "
  "The node's snapshot metadata never moves back, and a request for the current snapshot is answered with the state machine's current one.",
  ["schedules", "inputs", "histories"], "every snapshot, every local state and every interleaving with appends, commits and builds",
  "tests install a few snapshots on quiet nodes",
  [E + "handler/following_handler/mod.rs", SH, SW, R],
  [("FollowingHandler::install_full_snapshot", E + "handler/following_handler/mod.rs"), ("SnapshotHandler::update_snapshot", SH), ("sm::Worker::worker_loop", SW)],
  "Decides: guards of the installation command and of every snapshot metadata write, the state changes that go with it, dataflow through the state machine task and its report.")

P("P27", "A snapshot sent in chunks arrives whole",
  "The sender of a snapshot in chunks advances only past a chunk the receiver accepted without naming a higher vote, by the number of bytes sent, reads each chunk at the offset it names, and reports success only once the end of the snapshot was accepted. "
  "The receiver begins only at offset zero, writes a chunk only to the reception of the same snapshot and at the offset the chunk names, and hands over a snapshot only when its last chunk was written and the data flushed. "
  "A receiver takes a chunk only if everything before it was received, and refuses chunks of a leader with a smaller vote.",
  ["schedules", "fault_sequences", "inputs"], "every sequence of lost, delayed, duplicated and refused chunks and receiver restarts",
  "tests send one snapshot over a perfect network",
  [ST_, RAW],
  [("Chunked::send_snapshot", ST_), ("Chunked::receive_snapshot", ST_), ("Streaming::receive", ST_), ("Raft::install_snapshot", RAW)],
  "Decides: guards of each offset update, read, write and completion in both directions, and the dataflow of the chunk fields. "
  "Known finding: a chunk beyond the received part is accepted (an existing test requires it), leaving a gap.")

P("P31", "Votes, log ids and I/O positions are ordered as the protocol needs",
  "Log ids compare by the leader that proposed them and then by index; leader ids by term and then by node, but with one leader per term two different nodes of one term are not ordered, and a vote for a node is above an empty one. "
  "Votes compare by leader id; of the same leader the committed vote is greater, and of unordered leaders a committed one is greater than one that is not. "
  "I/O positions compare by vote and then by the whole last log id; two values are equal exactly if all their parts are, and the index following a log is one more than its own.",
  ["inputs"], "every pair of values, in both leader-id modes",
  "the orders decide elections, truncation and which I/O is complete; unit tests compare a handful of pairs and mostly one mode",
  ["openraft/src/vote/vote.rs", "openraft/src/vote/leader_id/leader_id_adv.rs", "openraft/src/vote/leader_id/leader_id_std.rs", "openraft/src/log_id/mod.rs", "openraft/src/raft_state/io_state/io_id.rs"],
  [("Vote::partial_cmp", "openraft/src/vote/vote.rs"), ("LeaderId::partial_cmp", "openraft/src/vote/leader_id/leader_id_std.rs"), ("IOId::partial_cmp", "openraft/src/raft_state/io_state/io_id.rs"), ("LogId", "openraft/src/log_id/mod.rs")],
  "Decides: abstract interpretation of every comparison method (derived ones included) over all combinations of how the parts of two values relate (less, equal, greater, unordered; present, absent; committed or not). "
  "A comparison that does something the interpreter does not model leaves that case undecided (evidence: notes).",
  technique="abstract interpretation of the comparison functions over a finite domain of order relations")

P("P28", "Metrics and waits tell the truth about a node",
  "What a node publishes in its metrics is what it holds when it publishes them: its log, applied, snapshot and purged positions, the vote saved to storage, its effective membership, and as leader the granted leader of its vote exactly if that is a voter; data and server metrics show the same and are published before the full metrics. "
  "The metrics are published before the node waits for further work. "
  "Waiting for a condition succeeds only with published metrics that satisfy exactly the named condition; otherwise it goes on until the time is over or the metrics end.",
  ["inputs", "schedules"], "every state, every order of events and publications",
  "a stale or mislabelled metric shows only at particular moments; tests wait on metrics and so assume them",
  [R, "openraft/src/metrics/metric.rs", "openraft/src/metrics/wait.rs"],
  [("RaftCore::report_metrics", R), ("RaftCore::flush_metrics", R), ("RaftCore::current_leader", R), ("RaftMetrics partial_cmp Metric", "openraft/src/metrics/metric.rs"), ("Wait::metrics", "openraft/src/metrics/wait.rs")],
  "Decides: the state each published field is computed from; guards of the shown leader; order and totality of the three publications; publication before every wait of the main loop; "
  "comparison of metrics with conditions by abstract interpretation; guards of success, timeout and shutdown of a wait. Not decided: how timely a publication is.")

P("P32", "Snapshots are built one at a time and never replace newer ones",
  "A snapshot build is requested only when none is running; when it finishes, another one can be requested. "
  "The builder is taken from the state machine in the order of requests and the result of the build is always reported. "
  "A finished build becomes the node's snapshot and its stored-snapshot position exactly if it is newer than what the node has; the stored-snapshot position never moves back.",
  ["schedules", "histories"], "every interleaving of builds, applies and snapshot installations",
  "a build that finishes after an installation needs a slow builder and a lagging node at the same time",
  [SH, R, SW, E + "engine_impl.rs"],
  [("SnapshotHandler::trigger_snapshot", SH), ("Engine::finish_building_snapshot", E + "engine_impl.rs"), ("RaftCore::handle_notification BuildSnapshot", R)],
  "Decides: guards of build requests and of the building flag, of snapshot metadata and stored-position writes; every path of the building task reports. "
  "Fixed: a build finishing after a newer installation moved the stored position back.")

P("P37", "A node campaigns on its own only after its leader has been silent",
  "On a timer a node starts an election only if it is not leader, is a voter of its effective membership, elections are enabled at run time and, unless it is the only voter, the time since it last accepted the vote of a leader or candidate exceeds the lease it gave plus its election timeout (plus the longer wait while it knows of a log greater than its own). "
  "A lease is the configured one, counts from the moment the vote was accepted, is given only to an established leader, restarts whenever a vote at least as great as the node's own is accepted, and once given up stays given up until the vote changes. "
  "Timed ticks, elections and heartbeats happen only while their own switch is on and, for heartbeats, when due; elections and heartbeats a user asks for do not depend on the switches.",
  ["inputs", "schedules"], "every state, clock value and order of ticks, messages and switch changes",
  "disturbance and stale leases show only for particular timings, which tests with a few timings do not reach",
  [R, E+"handler/vote_handler/mod.rs", "openraft/src/utime.rs", E+"engine_config.rs", "openraft/src/core/tick.rs", "openraft/src/raft/runtime_config_handle.rs"],
  [("RaftCore::handle_tick_election", R), ("Leased", "openraft/src/utime.rs"), ("VoteHandler::update_vote", E+"handler/vote_handler/mod.rs"), ("Tick::tick_loop", "openraft/src/core/tick.rs"), ("RuntimeConfigHandle", "openraft/src/raft/runtime_config_handle.rs")],
  "Decides: the guards that dominate a timed election, tick and heartbeat; the operands of the expiry comparison; how every lease update computes time and duration; which switch each setting changes. Not decided: whether timers fire on time.")

P("P23", "A restarted node recovers exactly what its stores hold",
  "A node starts with the vote, the log range and the snapshot its stores hold; it counts as applied what the state machine has applied, raised to the stored committed position (at most) only after every entry between the two was read back without gaps and applied in order. "
  "A log that ends before the applied position is purged up to it, a missing snapshot of a purged log is rebuilt, and the first log id of every leader in the stored log is found again. "
  "The node resumes as leader exactly if the stored vote is its own and granted by a quorum, and handles no event before that.",
  ["crash_points", "histories", "inputs"], "every combination of stored vote, log, committed position, state machine and snapshot a crash can leave behind",
  "tests restart nodes from a few hand-made stores",
  ["openraft/src/storage/helper.rs", "openraft/src/engine/log_id_list.rs", E + "engine_impl.rs", R],
  [("StorageHelper::get_initial_state", "openraft/src/storage/helper.rs"), ("StorageHelper::reapply_committed", "openraft/src/storage/helper.rs"), ("LogIdList::load_log_ids", "openraft/src/engine/log_id_list.rs"), ("Engine::startup", E + "engine_impl.rs"), ("RaftCore::do_main", R)],
  "Decides: dataflow of every field of the recovered state to the storage call it comes from; guards of raising, purging and rebuilding; range and check of the re-applied entries; must-search/must-record paths of the log id search; role guards.")

P("P24", "Callers of a stopped node learn that it stopped, and why",
  "Once the main task of a node has ended, normally, by a storage error or by a panic, every request that cannot be delivered or will not be answered returns exactly the error the task ended with. "
  "Whoever waits for the end, a shutdown included, returns only after it; a waiting caller that is cancelled neither loses the outcome for the others nor makes them fail. "
  "Before the task ends it publishes metrics with the shutdown state and the same error.",
  ["schedules", "fault_sequences"], "every order of shutdowns, cancelled waits, failures and pending requests",
  "tests shut nodes down without cancelling the call and rarely make them fail",
  ["openraft/src/raft/raft_inner.rs", RAW, R],
  [("RaftInner::join_core_task", "openraft/src/raft/raft_inner.rs"), ("RaftInner::get_core_stopped_error", "openraft/src/raft/raft_inner.rs"), ("RaftInner::call_core", "openraft/src/raft/raft_inner.rs"), ("Raft::shutdown", RAW), ("RaftCore::main", R)],
  "Decides: must-pass paths of every wait to the recorded outcome; ownership (awaited by value or by reference) of the task handle and its give-back on drop; dataflow of every returned or published error; no public call makes up a fatal error.")

P("P26", "A restarted node uses the last membership of its log",
  "A restarted node uses the last membership in its stored log, or that of its state machine if the log above the applied position has none; the one before it counts as the committed one. "
  "The log is searched backwards from its end to the applied position without leaving out any entry, until two memberships are found. "
  "The search is done after committed entries have been applied again.",
  ["crash_points", "histories"], "every stored log and state machine, with any number of memberships at any distance",
  "tests use logs with a few membership entries and one chunk size",
  ["openraft/src/storage/helper.rs", MS],
  [("StorageHelper::get_membership", "openraft/src/storage/helper.rs"), ("StorageHelper::last_membership_in_log", "openraft/src/storage/helper.rs")],
  "Decides: for each way the recovered membership is built, guards on the number of memberships found and dataflow of the chosen one; step and ranges of the backward scan; nothing found is dropped; order relative to re-applying.")

P("P29", "A cluster is initialized only on a pristine node",
  "Initialization changes something only on a node that has no log and has never voted, and only if the node itself is among the voters given; otherwise it is refused, naming the node's vote and last log id or the membership, and nothing changes. "
  "It writes exactly one entry, at the very first log id: the membership given, a single configuration in which all members given are voters. "
  "The membership becomes effective at once and an election is started.",
  ["inputs", "schedules", "histories"], "every initialization request on every local state, racing with requests of other nodes",
  "tests initialize fresh nodes; a request racing with a vote or an append is not sampled",
  [E + "engine_impl.rs", R, RAW],
  [("Engine::initialize", E + "engine_impl.rs"), ("RaftState::is_initialized", "openraft/src/raft_state/mod.rs"), ("RaftCore::handle_initialize", R), ("Membership::from", "openraft/src/membership/membership.rs")],
  "Decides: three guards on every command and state write reachable from an initialization request, guards of each refusal, and dataflow of the first entry.")

P("P11", "A storage error stops the node",
  "No result of a storage operation is ignored: after an operation of the log store or the state machine failed, the node neither uses the storage again in that activity nor reports anything as stored, applied, built or installed because of it. "
  "An error in a background activity (a completion callback, replication, the state machine task, a snapshot build) is reported to the node's main task. "
  "The main task ends with the first storage error it learns of, handling nothing else, and a node whose stored state cannot be read does not start.",
  ["fault_sequences", "crash_points", "schedules"], "every storage operation failing at any time",
  "existing tests inject no storage failures, except a few",
  [R, SW, RP, "openraft/src/storage/callback.rs", "openraft/src/storage/helper.rs"],
  [("RaftCore::run_command", R), ("sm::Worker::worker_loop", SW), ("IOFlushed::io_completed", "openraft/src/storage/callback.rs"), ("StorageHelper::get_initial_state", "openraft/src/storage/helper.rs"), ("RaftCore::handle_notification StorageError", R)],
  "Decides: for each awaited storage call, no path avoids its success branch and reaches a success exit or another storage call; each error branch of a background task passes its report; error branches of the main loop end it.")

P("P30", "The bundled stores keep what they report",
  "The bundled stores (memory, RocksDB, sled) report success only after the data is written, on disk flushed for votes, appended and truncated entries and installed snapshots, and never after a database error; truncating removes exactly the entries from the given position on, purging records the position and then removes exactly those up to it, reading returns exactly the entries in range in order, and the log state falls back to the purged position. "
  "Applying handles every entry once and in order, recording position and membership with its effects, with one response each. "
  "A built snapshot holds state, position and membership of one moment and never replaces a newer stored one; installing replaces the state (in sled as one transaction) and the stored snapshot, and a restarted RocksDB node restores its state from the stored snapshot.",
  ["crash_points", "inputs", "schedules"], "every input, crash point and interleaving of a snapshot build with an installation",
  "the storage suite runs single operations without crashes or concurrent builds",
  ["stores/memstore/src/lib.rs", "stores/rocksstore/src/lib.rs", "stores/sledstore/src/lib.rs"],
  [("MemLogStore / MemStateMachine", "stores/memstore/src/lib.rs"), ("RocksLogStore / RocksStateMachine", "stores/rocksstore/src/lib.rs"), ("SledStore / ExampleStateMachine", "stores/sledstore/src/lib.rs")],
  "Decides, on the inlined graphs of the trait implementations: write-flush-report order, error branches, keys, ranges and values of every store call, loops that skip an entry, the comparison and the lock around replacing a snapshot, the transaction. RocksDB and sled themselves are trusted. "
  "Fixed: a snapshot build replaced a newer snapshot installed meanwhile (all stores); sled installed data, position and membership in separate steps.")

P("P33", "Automatic snapshots and purges follow the configured policy",
  "An automatic purge leaves exactly the configured number of entries covered by the snapshot, and is made as soon as, and only when, a whole configured batch can go; a requested purge goes up to the index asked for or the snapshot, whichever is less. "
  "A purge postponed because replication reads the entries is never withdrawn or cut short by a later one, and it is retried whenever a follower's progress is reported. "
  "With a policy of N entries since the last snapshot, leaders and followers start a build when, and only when, N entries are committed past it and no build is running; with no policy, only on request.",
  ["inputs", "histories", "schedules"], "every configuration, log shape and interleaving of commits, builds, purges and replication",
  "tests try a few configurations and never postpone a purge",
  [E + "handler/log_handler/mod.rs", E + "engine_impl.rs", E + "handler/replication_handler/mod.rs", E + "handler/snapshot_handler/mod.rs", "openraft/src/config/config.rs"],
  [("LogHandler::calc_purge_upto / schedule_policy_based_purge", E + "handler/log_handler/mod.rs"), ("Engine::finish_building_snapshot / trigger_purge_log", E + "engine_impl.rs"), ("ReplicationHandler::try_purge_log", E + "handler/replication_handler/mod.rs"), ("SnapshotPolicy::should_snapshot", "openraft/src/config/config.rs")],
  "Decides: the index purged and every test on the way as linear sums of positions and configured numbers, the paths that skip a purge or a build. Not decided: that building a snapshot ends. "
  "Fixed: a snapshot build withdrew a postponed purge the user had asked for (panicking in debug builds); extreme batch sizes and thresholds overflowed.")
