"""Small behaviour-breaking (or, benign=True, behaviour-keeping) edits used while developing the rules."""
M = []
S = "openraft/src/"
EI = S + "engine/engine_impl.rs"
FH = S + "engine/handler/following_handler/mod.rs"
RH = S + "engine/handler/replication_handler/mod.rs"
LH = S + "engine/handler/leader_handler/mod.rs"
LOGH = S + "engine/handler/log_handler/mod.rs"
VH = S + "engine/handler/vote_handler/mod.rs"
SH = S + "engine/handler/snapshot_handler/mod.rs"
RC = S + "core/raft_core.rs"
REPL = S + "replication/mod.rs"
WK = S + "core/sm/worker.rs"
RS = S + "raft_state/mod.rs"
PG = S + "progress/mod.rs"
PE = S + "progress/entry/mod.rs"


def m(name, prop, *edits, **kw):
    M.append(dict(name=name, prop=prop, edits=list(edits), **kw))


# P01
m("p01-elect-no-check", "P01", (RC, "let _ = self.engine.vote_handler().update_vote(&higher);", "self.engine.state.vote.update(C::now(), Duration::default(), higher);"))
m("p01-save-ignored", "P01", (RC, "self.log_store.save_vote(&vote).await?;", "if self.log_store.save_vote(&vote).await.is_err() {\n                    tracing::warn!(\"x\");\n                }"))
# P02
m("p02-init-before", "P02", (RC, "let condition = if res.is_err() {", "let condition = if res.is_err() || self.engine.state.last_log_id().is_none() || self.engine.candidate_ref().is_some() {"))
m("p02-vote-cond", "P02", (RC, "        let resp = self.engine.handle_vote_req(req);\n        let condition = Some(Condition::IOFlushed {", "        let vote0 = *self.engine.state.vote_ref();\n        let resp = self.engine.handle_vote_req(req);\n        let condition = (vote0 != *self.engine.state.vote_ref()).then(|| Condition::IOFlushed {"))
m("p02-append-cond", "P02", (EI, "                Some(Condition::IOFlushed {\n                    io_id: *self.state.accepted_io().unwrap(),\n                })", "                self.state.io_state().io_progress.submitted().map(|x| Condition::IOFlushed { io_id: *x })"))
m("p02-submit-none", "P02", (FH, "                when: condition,\n                io_id: to_submit,", "                when: condition.filter(|_| prev_log_id.is_none()),\n                io_id: to_submit,"))
m("p02-flush-lt", "P02", (RC, "if curr < Some(&io_id) {", "if curr.map(|x| x.vote_ref()) < Some(io_id.vote_ref()) {"))
# P03
m("p03-log-index", "P03", (EI, "if req.last_log_id.as_ref() >= self.state.last_log_id() {", "if req.last_log_id.index() >= self.state.last_log_id().index() {"))
m("p03-lease-leader", "P03", (EI, "if local_leased_vote.is_committed() {", "if local_leased_vote.is_committed() && req.vote.leader_id().term <= local_leased_vote.leader_id().term + 1 {"))
m("p03-committed-id", "P03", (EI, "if req.last_log_id.as_ref() >= self.state.last_log_id() {", "if req.last_log_id.as_ref() >= self.state.committed() {"))
# P04
m("p04-old-grant", "P04", (EI, "if resp.vote_granted && &resp.vote == candidate.vote_ref() {", "if resp.vote_granted && resp.vote.leader_id().voted_for() == candidate.vote_ref().leader_id().voted_for() {"))
m("p04-committed-mem", "P04", (EI, "let membership = self.state.membership_state.effective().membership();", "let membership = self.state.membership_state.committed().membership();"))
# P05
m("p05-same-term", "P05", (RH, "if !self.state.vote_ref().is_same_leader(c.committed_leader_id()) {", "if !self.state.vote_ref().is_same_leader(c.committed_leader_id()) && self.state.committed().is_none() {"))
m("p05-learner", "P05", (PG, "for i in new_index..self.voter_count {", "for i in new_index..self.vector.len() {"))
m("p05-partial", "P05", (REPL, "AppendEntriesResponse::PartialSuccess(matching) => {\n", "AppendEntriesResponse::PartialSuccess(_m) => {\n                let matching = sending_range.last;\n"))
m("p05-session", "P17", (RC, "if &session_id.membership_log_id != self.engine.state.membership_state.effective().log_id() {", "if session_id.membership_log_id > *self.engine.state.membership_state.effective().log_id() {"))
# P06
m("p06-last-log", "P06", (FH, "let accepted = self.state.accepted_io().copied();\n        let accepted = accepted.and_then(|x| x.last_log_id().copied());", "let accepted = self.state.last_log_id().copied();"))
m("p06-reject-commit", "P06", (RC, "        if is_ok {\n            self.engine.handle_commit_entries(req.leader_commit);\n        }", "        if is_ok || req.prev_log_is_none() {\n            self.engine.handle_commit_entries(req.leader_commit);\n        }") )
# P07
m("p07-prev-index", "P07", (FH, "if !self.state.has_log_id(prev) {", "if self.state.get_log_id(prev.index).is_none() {"))
m("p07-since", "P07", (FH, "self.truncate_logs(entries[since].get_log_id().index);", "if since > 0 {\n                self.truncate_logs(entries[since].get_log_id().index);\n            }"))
# P08
m("p08-trunc", "P08", (FH, "self.truncate_logs(self.state.committed().next_index());", "self.truncate_logs(self.state.last_purged_log_id().next_index());"))
# P09
m("p09-inuse", "P09", (RH, "if prog_entry.is_log_range_inflight(&purge_upto) {", "if prog_entry.matching.is_none() && prog_entry.is_log_range_inflight(&purge_upto) {"))
m("p09-clamp", "P09", (EI, "            index = snapshot_last_log_id.index;\n", "            index = std::cmp::min(index, self.state.committed().next_index());\n"))
m("p09-nocond", "P09", (S + "engine/command.rs", "Command::PurgeLog { upto }                => Some(Condition::Snapshot { log_id: Some(*upto) }),", "Command::PurgeLog { upto }                => Some(Condition::Applied { log_id: Some(*upto) }),"))
# P10
m("p10-first", "P10", (RC, "", ""))
# P12
m("p12-front", "P12", (S + "engine/engine_output.rs", "", ""))
M = [x for x in M if not x.get("skip")]
MB = S + "membership/membership.rs"
MSM = S + "raft_state/membership_state/mod.rs"
CH = S + "raft_state/membership_state/change_handler.rs"
QS = S + "quorum/quorum_set_impl.rs"
CO = S + "quorum/coherent_impl.rs"
BW = S + "raft/impl_raft_blocking_write.rs"
# P13
m("p13-index", "P13", (CH, "if effective.log_id() == committed.log_id() {", "if effective.log_id() == committed.log_id() || effective.membership().get_joint_config().len() > 1 {"))
m("p13-retain", "P13", (BW, "RaftMsg::ChangeMembership { changes, retain, tx }, rx", "RaftMsg::ChangeMembership { changes, retain: true, tx }, rx"))
m("p13-first", "P13", (MB, "let last = self.get_joint_config().last().cloned().unwrap_or_default();", "let last = self.get_joint_config().first().cloned().unwrap_or_default();"))
m("p13-small", "P13", (CO, "        if self.is_coherent_with(&other) {", "        if self.is_coherent_with(&other) || self.children().len() > 1 {"))
m("p13-novalid", "P13", (MB, "        new_membership.ensure_valid()?;", "        if retain {\n            new_membership.ensure_valid()?;\n        }"))
m("p13-noclock", "P13", (RH, "            self.leader.clock_progress =\n                old_progress.upgrade_quorum_set(em.membership().to_quorum_set(), learner_ids, || None);", "            if !em.membership().get_joint_config().is_empty() && em.membership().get_joint_config().len() == 1 {\n                self.leader.clock_progress =\n                    old_progress.upgrade_quorum_set(em.membership().to_quorum_set(), learner_ids, || None);\n            }"))
# P14
m("p14-lt", "P14", (MSM, "if Some(since) <= self.effective().log_id().index() {", "if Some(since) < self.effective().log_id().index() {"))
m("p14-noprev", "P14", (MSM, "        self.committed = self.effective.clone();\n        self.effective = m;", "        if self.committed.log_id() != self.effective.log_id() && self.effective.membership().get_joint_config().len() > 1 {\n            self.committed = self.effective.clone();\n        }\n        self.effective = m;"))
m("p14-last-one", "P14", (FH, "                if memberships.len() == 2 {", "                if memberships.len() == 1 {"))
m("p14-norole", "P14", (FH, "        if let Some(_c) = changed {\n            self.server_state_handler().update_server_state_if_changed();\n        }", "        if let Some(c) = changed {\n            if c.membership().get_joint_config().len() > 1 {\n                self.server_state_handler().update_server_state_if_changed();\n            }\n        }"))
m("p14-commit-gt", "P14", (MSM, "if committed_log_id >= self.effective().log_id() {", "if committed_log_id > self.effective().log_id() {"))
# P25
m("p25-half", "P25", (QS, "                if count > limit {\n                    return true;", "                if count >= limit {\n                    return true;", 1))
m("p25-outside", "P25", (QS, "            if self.contains(id) {\n                count += 2;", "            if self.contains(id) || limit > 64 {\n                count += 2;", 1))

RAW = S + "raft/mod.rs"
# P15
m("p15-self-quorum", "P15", (RC, "granted.insert(target);\n\n                if eff_mem.is_quorum(granted.iter()) {", "granted.insert(target);\n\n                if granted.len() >= 2 || eff_mem.is_quorum(granted.iter()) {"))
m("p15-committed-mem", "P15", (RC, "let eff_mem = self.engine.state.membership_state.effective().clone();\n        let core_tx", "let eff_mem = self.engine.state.membership_state.committed().clone();\n        let core_tx"))
m("p15-higher-ok", "P15", (RC, "                    // we are no longer leader so error out early\n                    let err = ForwardToLeader::empty();\n                    let _ = tx.send(Err(err.into()));\n                    return;\n", ""))
m("p15-committed-only", "P15", (LH, "std::cmp::max(self.leader.noop_log_id, committed)", "committed.or(self.leader.noop_log_id)"))
m("p15-applied-read", "P15", (LH, "let committed = self.state.committed().copied();", "let committed = self.state.io_applied().copied();"))
m("p15-no-wait", "P15", (RAW, "if read_log_id.index() > applied.index() {", "if read_log_id.index() > applied.next_index().checked_add(0) {"))
m("p15-error-granted", "P15", (RC, "                    Ok(Err((target, err))) => {\n                        tracing::error!(target=display(target), error=%err, \"timeout while confirming leadership for read request\");\n                        continue;", "                    Ok(Err((target, err))) => {\n                        tracing::error!(target=display(target), error=%err, \"timeout while confirming leadership for read request\");\n                        if matches!(err, RPCError::Timeout(_)) {\n                            granted.insert(target);\n                        }\n                        continue;"))
m("p15-target-mixed", "P15", (RC, "Ok(x) => Ok((target, x)),\n                        Err(err) => Err((target, err)),", "Ok(x) => Ok((my_id, x)),\n                        Err(err) => Err((target, err)),"))
m("p15-ben-helper", "P15", (RC, "            let read_log_id = lh.get_read_log_id();\n", "            let read_log_id = {\n                let c = lh.state.committed().copied();\n                let n = lh.leader.noop_log_id;\n                if c > n { c } else { n }\n            };\n"), benign=True)
# P18
m("p18-drop-check", "P18", (RC, "                Err(forward) => {\n                    let _ = tx.send(Err(forward.into()));\n                    return;\n                }\n            };\n\n            let read_log_id", "                Err(_forward) => {\n                    return;\n                }\n            };\n\n            let read_log_id"))
m("p18-drop-transfer", "P18", (RC, "            if let Some(tx) = tx {\n                let err = lh.state.new_forward_to_leader(*to);\n                tx.send(Err(ClientWriteError::ForwardToLeader(err)));\n            }\n            return;", "            tracing::debug!(to = display(to), \"transferring\");\n            return;"))
m("p18-drop-quorum", "P18", (RC, "            let _ = tx.send(Err(QuorumNotEnough {\n                cluster: eff_mem.membership().to_string(),\n                got: granted,\n            }\n            .into()));\n", "            tracing::info!(\"quorum not enough {} {:?}\", eff_mem.membership(), granted);\n"))
m("p18-drop-init", "P18", (RC, "                self.handle_initialize(members, tx);", "                if self.engine.leader_ref().is_none() {\n                    self.handle_initialize(members, tx);\n                }"))
# P19
m("p19-since", "P19", (RC, "let tx = self.client_resp_channels.remove(&log_index);", "let tx = self.client_resp_channels.remove(&(log_index + 1));"))
m("p19-first", "P19", (RC, "let tx = self.client_resp_channels.remove(&log_index);", "let tx = self.client_resp_channels.pop_first().map(|x| x.1);"))
m("p19-split", "P19", (RC, "split_off(&since.index)", "split_off(&(since.index + 1))"))
m("p19-clear", "P19", (RC, "let removed = self.client_resp_channels.split_off(&since.index);", "let mut removed = self.client_resp_channels.split_off(&since.index);\n                removed.retain(|i, _| *i > since.index);"))
m("p19-index-before", "P19", (RC, "        lh.leader_append_entries(entries);\n        let index = lh.state.last_log_id().unwrap().index;", "        let index = lh.state.last_log_id().unwrap().index + 1;\n        lh.leader_append_entries(entries);"), benign=True)
m("p19-skip-none", "P19", (RC, "            let apply_res = results.next().unwrap();\n            let tx = self.client_resp_channels.remove(&log_index);\n", "            let Some(tx) = self.client_resp_channels.remove(&log_index) else {\n                continue;\n            };\n            let apply_res = results.next().unwrap();\n            let tx = Some(tx);\n"))
m("p19-ben-loop", "P19", (RC, "        for log_index in res.since..res.end {\n            let ent = applying_entries.next().unwrap();\n            let apply_res = results.next().unwrap();\n            let tx = self.client_resp_channels.remove(&log_index);\n\n            Self::send_response(ent, apply_res, tx);\n        }", "        for (log_index, (ent, apply_res)) in (res.since..res.end).zip(applying_entries.by_ref().zip(results.by_ref())) {\n            let tx = self.client_resp_channels.remove(&log_index);\n            Self::send_response(ent, apply_res, tx);\n        }"), benign=True)
# P20
m("p20-no-block", "P20", (RC, "if let Some(to) = lh.leader.get_transfer_to() {", "if let Some(to) = lh.leader.get_transfer_to().filter(|_| !tx.is_none()) {"))
m("p20-lease", "P20", (LH, "        self.state.vote.disable_lease();\n\n        self.output.push_command(Command::BroadcastTransferLeader", "        self.output.push_command(Command::BroadcastTransferLeader"))
m("p20-stale", "P20", (RC, "if self.engine.state.vote_ref() == &current_leader_vote {", "if self.engine.state.vote_ref() <= &current_leader_vote {"))
m("p20-anyone", "P20", (RC, "if self.id == to {\n                        self.engine.elect();", "if self.engine.state.membership_state.effective().is_voter(&self.id) {\n                        self.engine.elect();"))
m("p20-nowait", "P20", (RAW, "m.last_log_index.next_index() >= req.last_log_id().next_index()", "m.last_applied.next_index() <= req.last_log_id().next_index()"))
RAW2 = S + "raft/mod.rs"
HBW = S + "core/heartbeat/worker.rs"
SNT = S + "network/snapshot_transport.rs"
# P29
m("p29-log-only", "P29", (RS, "        if self.vote_ref() != &Vote::default() {\n            return true;\n        }\n", "        if self.vote_ref().is_committed() {\n            return true;\n        }\n"))
m("p29-purged", "P29", (RS, "        if self.last_log_id().is_some() {\n            return true;\n        }\n", "        if self.last_log_id().index() > self.last_purged_log_id().index() {\n            return true;\n        }\n"))
m("p29-node-only", "P29", (EI, "if !m.is_voter(&self.config.id) {", "if m.get_node(&self.config.id).is_none() && !m.is_voter(&self.config.id) {"), benign=True)
m("p29-order", "P29", (EI, "        self.check_initialize()?;\n\n        // The very first log id", "        let chk = self.check_initialize();\n\n        // The very first log id"), (EI, "        self.following_handler().do_append_entries(vec![entry]);\n\n        // With the new", "        self.following_handler().do_append_entries(vec![entry]);\n        chk?;\n\n        // With the new"))
m("p29-no-member", "P29", (EI, "        self.check_members_contain_me(m)?;\n", "        if m.get_joint_config().len() > 1 {\n            self.check_members_contain_me(m)?;\n        }\n"))
m("p29-logid", "P29", (EI, "entry.set_log_id(&LogId::default());", "entry.set_log_id(&LogId::new(crate::CommittedLeaderId::new(0, self.config.id), 0));"))
m("p29-no-elect", "P29", (EI, "        // With the new config, start to elect to become leader\n        self.elect();", "        if self.state.membership_state.effective().voter_ids().count() > 1 {\n            self.elect();\n        }"))
m("p29-ben-inline", "P29", (EI, "        self.check_initialize()?;\n\n        // The very", "        if self.state.last_log_id().is_some() || self.state.vote_ref() != &Vote::default() {\n            self.check_initialize()?;\n        }\n\n        // The very"), benign=True)
# P14 install
m("p14-inst-norevert", "P14", (FH, "            self.state.membership_state.truncate(self.state.committed().next_index());", "            let _ = self.state.committed().next_index();"))
m("p14-inst-nocommit", "P14", (FH, "        self.update_committed_membership(EffectiveMembership::new_from_stored_membership(\n            meta.last_membership.clone(),\n        ));\n\n        self.output", "        if self.state.membership_state.effective().log_id() < meta.last_membership.log_id() {\n            self.update_committed_membership(EffectiveMembership::new_from_stored_membership(\n                meta.last_membership.clone(),\n            ));\n        }\n\n        self.output"))
m("p14-trunc", "P14", (FH, "        let changed = self.state.membership_state.truncate(since);", "        let changed = self.state.membership_state.truncate(since + 1);"))
# P16
m("p16-resp-ignored", "P16", (RC, "                    let _ = self.engine.vote_handler().update_vote(&higher);", "                    if higher.is_committed() {\n                        let _ = self.engine.vote_handler().update_vote(&higher);\n                    }"))
m("p16-follow", "P16", (VH, "        *self.leader = None;\n        *self.candidate = None;", "        *self.leader = None;\n        if self.state.vote_ref().is_committed() {\n            *self.candidate = None;\n        }"))
m("p16-upd-state", "P16", (VH, "        self.update_internal_server_state();\n\n        Ok(())", "        if vote.is_committed() || self.leader.is_none() {\n            self.update_internal_server_state();\n        }\n\n        Ok(())"))
m("p16-hb", "P16", (HBW, "sender_vote: *heartbeat.session_id.leader_vote.deref(),", "sender_vote: higher,"))
m("p16-repl", "P16", (REPL, "                Err(ReplicationError::HigherVote(HigherVote {\n                    higher: vote,", "                if !has_payload {\n                    return Ok(None);\n                }\n                Err(ReplicationError::HigherVote(HigherVote {\n                    higher: vote,"))
m("p16-match-any", "P16", (RC, "if self.does_vote_match(&sender_vote, \"HigherVote\") {", "if self.engine.state.is_leader(&self.id) && self.does_vote_match(&sender_vote, \"HigherVote\") {"))
m("p16-ben", "P16", (RC, "                if self.does_vote_match(&sender_vote, \"HigherVote\") {\n                    // Rejected vote change is ok.\n                    let _ = self.engine.vote_handler().update_vote(&higher);\n                }", "                if !self.does_vote_match(&sender_vote, \"HigherVote\") {\n                    return Ok(());\n                }\n                if let Err(e) = self.engine.vote_handler().update_vote(&higher) {\n                    tracing::debug!(\"{:?}\", e);\n                }"), benign=True)
# P21
m("p21-recv-time", "P21", (REPL, "                self.notify_heartbeat_progress(leader_time);\n\n                let matching = sending_range.last;", "                self.notify_heartbeat_progress(C::now());\n\n                let matching = sending_range.last;"))
m("p21-hb-now", "P21", (HBW, "sending_time: heartbeat.time,", "sending_time: C::now(),"))
m("p21-hb-all", "P21", (HBW, "                _ => {\n                    tracing::warn!(\"{} failed to send a heartbeat: {:?}\", self, res);\n                }", "                Err(_) => {\n                    let _ = self.tx_notification.send(Notification::HeartbeatProgress {\n                        session_id: heartbeat.session_id,\n                        sending_time: heartbeat.time,\n                        target: self.target,\n                    });\n                }\n                _ => {\n                    tracing::warn!(\"{} failed to send a heartbeat: {:?}\", self, res);\n                }"))
m("p21-time-late", "P21", (REPL, "        let leader_time = C::now();\n", ""), (REPL, "        let append_resp = append_res?;\n", "        let append_resp = append_res?;\n        let leader_time = C::now() - the_timeout;\n"), (REPL, "            now = display(leader_time.display()),\n            \"start sending append_entries, timeout", "            \"start sending append_entries, timeout"))
m("p21-target", "P21", (RC, "self.engine.replication_handler().update_leader_clock(target, sending_time);", "self.engine.replication_handler().update_leader_clock(target, sending_time.max(C::now() - Duration::from_millis(self.config.heartbeat_interval)));"))
m("p21-ben", "P21", (HBW, "            let timeout = Duration::from_millis(self.config.heartbeat_interval);\n            let option = RPCOption::new(timeout);\n", "            let sent_at = heartbeat.time;\n            let timeout = Duration::from_millis(self.config.heartbeat_interval);\n            let option = RPCOption::new(timeout);\n"), (HBW, "sending_time: heartbeat.time,", "sending_time: sent_at,"), benign=True)
# P22
m("p22-lt", "P22", (FH, "        if snap_last_log_id.as_ref() <= self.state.committed() {", "        if snap_last_log_id.as_ref().index() < self.state.committed().index() {"))
m("p22-no-upd", "P22", (FH, "        let updated = snap_handler.update_snapshot(meta.clone());\n        if !updated {\n            return None;\n        }", "        let _ = snap_handler.update_snapshot(meta.clone());"))
m("p22-report-early", "P22", (WK, "                    self.state_machine.install_snapshot(&meta, snapshot.snapshot).await?;\n\n                    tracing::info!(\"Done install complete snapshot, meta: {}\", meta);\n\n                    let res = CommandResult::new(Ok(Response::InstallSnapshot((io_id, Some(meta)))));\n                    let _ = self.resp_tx.send(Notification::sm(res));", "                    let res = CommandResult::new(Ok(Response::InstallSnapshot((io_id, Some(meta.clone())))));\n                    let _ = self.resp_tx.send(Notification::sm(res));\n                    self.state_machine.install_snapshot(&meta, snapshot.snapshot).await?;"))
m("p22-noapplied", "P22", (RC, "                            st.update_applied(meta.last_log_id);\n                            st.update_snapshot(meta.last_log_id);", "                            st.update_snapshot(meta.last_log_id);"))
# P27
m("p27-off-len", "P27", (SNT, "offset += n_read as u64;", "offset += chunk_size as u64;"))
m("p27-vote", "P27", (SNT, "                if resp.vote > vote {\n", "                if resp.vote > vote && done {\n"))
m("p27-noreset", "P27", (SNT, "            if curr_id != Some(snapshot_id) {\n                if req.offset != 0 {", "            if curr_id != Some(snapshot_id) {\n                if req.offset != 0 && streaming.is_none() {"))
m("p27-noseek", "P27", (SNT, "            if req.offset != self.offset {", "            if req.offset < self.offset {"))
m("p27-continue", "P27", (SNT, "                        tracing::warn!(error=%err, \"timeout while sending InstallSnapshot RPC to target\");\n                        continue;", "                        tracing::warn!(error=%err, \"timeout while sending InstallSnapshot RPC to target\");\n                        offset += n_read as u64;\n                        continue;"))
m("p27-take", "P27", (SNT, "                let streaming = streaming.take().unwrap();\n                let mut data = streaming.into_snapshot_data();", "                let s = streaming.take().unwrap();\n                let mut data = s.into_snapshot_data();"), benign=True)
m("p27-nosame", "P27", (SNT, "            if curr_id != Some(snapshot_id) {\n                if req.offset != 0 {", "            if curr_id.is_none() || (curr_id != Some(snapshot_id) && req.offset == 0) {\n                if req.offset != 0 {"))
# P32
m("p32-clear", "P32", (EI, "        self.state.io_state_mut().set_building_snapshot(false);\n\n        let mut h = self.snapshot_handler();\n\n        let updated = h.update_snapshot(meta);\n        if !updated {\n            return;\n        }\n", "        let mut h = self.snapshot_handler();\n\n        let updated = h.update_snapshot(meta);\n        if !updated {\n            return;\n        }\n        self.state.io_state_mut().set_building_snapshot(false);\n"))
m("p32-nocheck", "P32", (SH, "        if self.state.io_state_mut().building_snapshot() {", "        if self.state.io_state_mut().building_snapshot() && self.state.snapshot_last_log_id().is_some() {"))
m("p32-back", "P32", (RC, "if last_log_id.as_ref() > st.snapshot() {", "if last_log_id.index() != st.snapshot().index() {"))
m("p32-ge", "P32", (SH, "        if meta.last_log_id <= self.state.snapshot_last_log_id().copied() {", "        if meta.last_log_id < self.state.snapshot_last_log_id().copied() {"))
m("p32-ben", "P32", (RC, "                        if last_log_id.as_ref() > st.snapshot() {\n                            st.update_snapshot(last_log_id);\n                        }", "                        let newer = last_log_id.as_ref() > st.snapshot();\n                        if !newer {\n                            return Ok(());\n                        }\n                        st.update_snapshot(last_log_id);"), benign=True)
HE = S + "storage/helper.rs"
LL = S + "engine/log_id_list.rs"
CB = S + "storage/callback.rs"
m("p23-vote-default", "P23", (HE, "let vote = vote.unwrap_or_default();", "let vote = vote.filter(|v| v.is_committed()).unwrap_or_default();"))
m("p23-first", "P23", (HE, "            if first != Some(start) {\n                return Err(StorageError::read_log_at_index(start, make_err()));\n            }\n", "            if first.is_none() {\n                return Err(StorageError::read_log_at_index(start, make_err()));\n            }\n"))
m("p23-last", "P23", (HE, "            if last != Some(chunk_end - 1) {", "            if last < Some(start) {"))
m("p23-advance", "P23", (HE, "            start = chunk_end;", "            start += chunk_size + 1;"))
m("p23-start", "P23", (HE, "            let start = last_applied.next_index();", "            let start = last_applied.index().unwrap_or_default() + 1;"))
m("p23-end", "P23", (HE, "            let end = committed.next_index();", "            let end = last_log_id.next_index();"))
m("p23-raise", "P23", (HE, "            self.reapply_committed(start, end).await?;\n\n            last_applied = committed;", "            if st.last_purged_log_id <= last_applied {\n                self.reapply_committed(start, end).await?;\n            }\n\n            last_applied = committed;"))
m("p23-noraise", "P23", (HE, "        if last_applied < committed {\n            let start", "        if last_applied.is_some() && last_applied < committed {\n            let start"))
m("p23-purge-cond", "P23", (HE, "        if last_log_id < last_applied {", "        if last_log_id.index() < last_applied.index() && last_log_id.is_some() {"))
m("p23-purged-stay", "P23", (HE, "            last_log_id = last_applied;\n            last_purged_log_id = last_applied;", "            last_log_id = last_applied;\n            if last_purged_log_id.is_none() {\n                last_purged_log_id = last_applied;\n            }"))
m("p23-lastlog-stay", "P23", (HE, "            last_log_id = last_applied;\n            last_purged_log_id = last_applied;", "            last_purged_log_id = last_applied;"))
m("p23-snap", "P23", (HE, "                if last_purged_log_id.is_some() {", "                if st.last_purged_log_id.is_some() {"))
m("p23-snap2", "P23", (HE, "                if last_purged_log_id.is_some() {", "                if last_purged_log_id.is_some() && last_purged_log_id < last_log_id {"))
m("p23-ids-mid", "P23", (LL, "                stack.push((mid, last));\n                stack.push((first, mid));", "                stack.push((first, mid));\n                stack.push((mid, last));"))
m("p23-ids-abc", "P23", (LL, "                // Case ACC\n                stack.push((first, mid));", "                // Case ACC\n                if first.index + 2 < last.index {\n                    stack.push((first, mid));\n                }"))
m("p23-ids-acc", "P23", (LL, "            } else if mid.leader_id == last.leader_id {", "            } else if mid.leader_id >= last.leader_id || mid.index + 1 == last.index {"))
m("p23-ids-dedup", "P23", (LL, "                // Case AAC\n                if res.last().map(|x| x.leader_id) < Some(first.leader_id) {\n                    res.push(first);\n                }", "                // Case AAC\n                if res.is_empty() {\n                    res.push(first);\n                }"))
m("p23-ids-adj", "P23", (LL, "                res.push(last);\n                continue;", "                if stack.is_empty() {\n                    res.push(last);\n                }\n                continue;"))
m("p23-ids-last", "P23", (LL, "        if res.last() != Some(&last) {", "        if res.last().map(|x| x.leader_id) != Some(last.leader_id) {"))
m("p23-role", "P23", (EI, "        if self.state.is_leader(&self.config.id) {\n            self.vote_handler()", "        if self.state.is_leading(&self.config.id) {\n            self.vote_handler()"))
m("p23-role2", "P23", (EI, "        if self.state.is_leader(&self.config.id) {\n            self.vote_handler()", "        if self.state.is_leader(&self.config.id) && self.state.last_log_id().is_some() && self.state.committed().is_some() {\n            self.vote_handler()"))
m("p23-ben", "P23", (HE, "            self.state_machine.apply(entries).await?;\n\n            start = chunk_end;", "            let next = chunk_end;\n            self.state_machine.apply(entries).await?;\n            start = next;"), benign=True)
m("p23-ben2", "P23", (HE, "            let chunk_end = std::cmp::min(end, start + chunk_size);", "            let chunk_end = if start + chunk_size < end { start + chunk_size } else { end };"), benign=True)
m("p23-ben3", "P23", (HE, "            last_log_id = last_applied;\n            last_purged_log_id = last_applied;", "            (last_log_id, last_purged_log_id) = (last_applied, last_applied);"), benign=True)
m("p23-ben4", "P23", (HE, "        if committed < last_applied {\n            committed = last_applied;\n        }", "        committed = std::cmp::max(committed, last_applied);"), benign=True)
m("p23-ben5", "P23", (LL, "            if first.leader_id == mid.leader_id {\n                // Case AAC\n                if res.last().map(|x| x.leader_id) < Some(first.leader_id) {\n                    res.push(first);\n                }\n                stack.push((mid, last));\n            } else if mid.leader_id == last.leader_id {\n                // Case ACC\n                stack.push((first, mid));\n            } else {", "            if mid.leader_id == last.leader_id {\n                // Case ACC\n                stack.push((first, mid));\n            } else if first.leader_id == mid.leader_id {\n                // Case AAC\n                if res.last().map(|x| x.leader_id) < Some(first.leader_id) {\n                    res.push(first);\n                }\n                stack.push((mid, last));\n            } else {"), benign=True)
m("p26-one", "P26", (HE, "                    if res.len() == 2 {\n                        return Ok(res);", "                    if res.len() == 2 || since_index == 0 {\n                        return Ok(res);"))
m("p26-step", "P26", (HE, "            end = end.saturating_sub(step);\n        }", "            end = end.saturating_sub(step + 1);\n        }"))
m("p26-stop", "P26", (HE, "            end = end.saturating_sub(step);\n        }", "            end = end.saturating_sub(step);\n            if !res.is_empty() {\n                break;\n            }\n        }"))
m("p26-fwd", "P26", (HE, "for ent in entries.iter().rev() {", "for ent in entries.iter() {"))
m("p26-push", "P26", (HE, "                    res.insert(0, em);", "                    res.insert(res.len() / 2, em);"))

m("p26-older", "P26", (HE, "        if log_mem.len() == 2 {", "        if log_mem.len() == 2 && log_mem[0].log_id() > sm_mem.log_id() && sm_mem.log_id().is_some() {"))
m("p26-committed", "P26", (HE, "            Arc::new(EffectiveMembership::new_from_stored_membership(sm_mem)),\n", "            Arc::new(if log_mem.is_empty() { EffectiveMembership::new_from_stored_membership(sm_mem) } else { EffectiveMembership::new_from_stored_membership(log_mem[0].clone()) }),\n"))
m("p26-order", "P26", (HE, "        let mem_state = self.get_membership().await?;\n\n        // Clean", "        // Clean"), (HE, "        // Re-apply log entries to recover SM to latest state.", "        let mem_state = self.get_membership().await?;\n"))
m("p26-since", "P26", (HE, "let log_mem = self.last_membership_in_log(last_applied.next_index()).await?;", "let log_mem = self.last_membership_in_log(last_applied.next_index() + 2).await?;"))
m("p26-ben", "P26", (HE, "        let effective = if log_mem.is_empty() {\n            EffectiveMembership::new_from_stored_membership(sm_mem.clone())\n        } else {\n            EffectiveMembership::new_from_stored_membership(log_mem[0].clone())\n        };", "        let effective = match log_mem.first() {\n            None => EffectiveMembership::new_from_stored_membership(sm_mem.clone()),\n            Some(m) => EffectiveMembership::new_from_stored_membership(m.clone()),\n        };"), benign=True)
m("p26-ben2", "P26", (HE, "            end = end.saturating_sub(step);\n        }", "            end = step_start;\n        }"), benign=True)
# P11
m("p11-committed", "P11", (RC, "self.log_store.save_committed(Some(committed)).await?;", "if let Err(e) = self.log_store.save_committed(Some(committed)).await {\n            tracing::warn!(\"{}\", e);\n        }"))
m("p11-purge", "P11", (RC, "self.log_store.purge(upto).await?;", "let _ = self.log_store.purge(upto).await;"))
m("p11-cb", "P11", (CB, "            Err(e) => {\n", "            Err(e) if e.kind() != io::ErrorKind::Interrupted => {\n", 0), (CB, "            Ok(_) => {\n", "            _ => {\n", 0))
m("p11-repl", "P11", (REPL, "                            let _ = self.tx_raft_core.send(Notification::StorageError { error });\n                            return Ok(());", "                            if need_notify {\n                                let _ = self.tx_raft_core.send(Notification::StorageError { error });\n                                return Ok(());\n                            }"))
m("p11-ntf", "P11", (RC, "                return Err(Fatal::StorageError(error));", "                if self.engine.leader.is_none() {\n                    return Err(Fatal::StorageError(error));\n                }"))
m("p11-install", "P11", (WK, "                    self.state_machine.install_snapshot(&meta, snapshot.snapshot).await?;", "                    if let Err(e) = self.state_machine.install_snapshot(&meta, snapshot.snapshot).await {\n                        tracing::error!(\"{}\", e);\n                        continue;\n                    }"))
m("p11-apply", "P11", (WK, "                    let resp = self.apply(first, last).await?;", "                    let resp = match self.apply(first, last).await {\n                        Ok(x) => x,\n                        Err(_) => self.apply(first, last).await?,\n                    };"))
m("p11-build", "P11", (WK, "            let res = builder.build_snapshot().await;\n", "            let res = builder.build_snapshot().await;\n            if res.is_err() {\n                tracing::error!(\"building snapshot failed\");\n                return;\n            }\n"))
m("p11-worker", "P11", (WK, "            if let Err(err) = res {\n", "            if let Err(err) = res {\n                if self.cmd_rx.try_recv().is_err() {\n                    return;\n                }\n"))
m("p11-ben", "P11", (WK, "                    let resp = self.apply(first, last).await?;", "                    let resp = match self.apply(first, last).await {\n                        Ok(x) => x,\n                        Err(e) => return Err(e),\n                    };"), benign=True)
m("p11-ben2", "P11", (RC, "self.log_store.purge(upto).await?;", "if let Err(e) = self.log_store.purge(upto).await {\n                    tracing::error!(\"purge: {}\", e);\n                    return Err(e);\n                }"), benign=True)

# P24
RIN = S + "raft/raft_inner.rs"
RAWM = S + "raft/mod.rs"
m("p24-own", "P24", (RIN, "joining.join_handle.as_mut().unwrap().await;", "joining.join_handle.take().unwrap().await;"))
m("p24-drop-done", "P24", (RIN, "            *self.core_state.lock().unwrap() = CoreState::Running(join_handle);", "            drop(join_handle);\n            *self.core_state.lock().unwrap() = CoreState::Done(Err(Fatal::Stopped));"))
m("p24-waiter", "P24", (RIN, "                        return *rx.borrow_watched();", "                        return true;"))
m("p24-changed", "P24", (RIN, "                    if *rx.borrow_watched() {\n                        return true;\n                    }", "                    return true;"), benign=True)
m("p24-panic", "P24", (RIN, "                        if AsyncRuntimeOf::<C>::is_panic(&err) {\n                            Err(Fatal::Panicked)\n                        } else {\n                            Err(Fatal::Stopped)\n                        }", "                        tracing::error!(\"{}\", AsyncRuntimeOf::<C>::is_panic(&err));\n                        Err(Fatal::Stopped)"))
m("p24-order", "P24", (RIN, "                {\n                    let mut state = self.core_state.lock().unwrap();\n                    *state = CoreState::Done(core_task_res);\n                }\n                tx.send(true).ok();", "                tx.send(true).ok();\n                {\n                    let mut state = self.core_state.lock().unwrap();\n                    *state = CoreState::Done(core_task_res);\n                }"))
m("p24-recv", "P24", (RIN, "                let fatal = self.get_core_stopped_error(\"receiving rx from RaftCore\", None::<&'static str>).await;\n                tracing::error!(error = debug(&fatal), \"error when {}\", func_name!());\n                Err(fatal)", "                Err(Fatal::Stopped)"))
m("p24-main", "P24", (RC, "            curr.running_state = Err(err.clone());", "            curr.running_state = Err(Fatal::Stopped);"))
m("p24-main-quiet", "P24", (RC, "        match err {\n            Fatal::Stopped => { /* Normal quit */ }", "        match err {\n            Fatal::Panicked => return Err(err),\n            Fatal::Stopped => { /* Normal quit */ }"))
m("p24-twice", "P24", (RAWM, "            tracing::info!(\"sending shutdown signal to RaftCore, sending res: {:?}\", send_res);\n        }", "            tracing::info!(\"sending shutdown signal to RaftCore, sending res: {:?}\", send_res);\n        } else {\n            return Ok(());\n        }"))
m("p24-run", "P24", (RIN, "        self.tx_api.send(probe).is_ok()", "        self.tx_api.send(probe).ok();\n        matches!(&*self.core_state.lock().unwrap(), CoreState::Running(_))"))
m("p24-clear", "P24", (RIN, "                joining.join_handle = None;\n", ""))
m("p24-lin", "P24", (RAWM, "                    return Err(RaftError::Fatal(fatal));", "                    tracing::error!(\"{}\", fatal);\n                    return Err(RaftError::Fatal(Fatal::Stopped));"))
m("p24-ext", "P24", (RIN, "        if send_res.is_err() {\n", "        if send_res.is_err() && !matches!(&*self.core_state.lock().unwrap(), CoreState::Joining(_)) {\n"))
m("p24-ben", "P24", (RIN, "        while !self.try_join_core_task().await {}", "        loop {\n            let joined = self.try_join_core_task().await;\n            if joined {\n                break;\n            }\n        }"), benign=True)
m("p24-ben2", "P24", (RIN, "                    let res = rx.changed().await;\n                    if res.is_err() {\n                        return *rx.borrow_watched();\n                    }\n                    if *rx.borrow_watched() {\n                        return true;\n                    }", "                    let closed = rx.changed().await.is_err();\n                    let done = *rx.borrow_watched();\n                    if done || closed {\n                        return done;\n                    }"), benign=True)
m("p24-ben3", "P24", (RIN, "        // Safe unwrap: core_res is always an error\n        core_res.unwrap_err()", "        match core_res {\n            Err(e) => e,\n            Ok(_) => unreachable!(),\n        }"), benign=True)
m("p24-ben4", "P24", (RC, "            let mut curr = self.tx_metrics.borrow_watched().clone();\n            curr.state = ServerState::Shutdown;\n            curr.running_state = Err(err.clone());\n\n            let _ = self.tx_metrics.send(curr);", "            let last = self.tx_metrics.borrow_watched().clone();\n            let fin = RaftMetrics {\n                state: ServerState::Shutdown,\n                running_state: Err(err.clone()),\n                ..last\n            };\n            self.tx_metrics.send(fin).ok();"), benign=True)
m("p24-ben5", "P24", (RIN, "                let core_task_res = match join_res {\n                    Err(err) => {\n                        if AsyncRuntimeOf::<C>::is_panic(&err) {\n                            Err(Fatal::Panicked)\n                        } else {\n                            Err(Fatal::Stopped)\n                        }\n                    }\n                    Ok(returned_res) => returned_res,\n                };", "                let core_task_res = join_res.unwrap_or_else(|err| {\n                    Err(if AsyncRuntimeOf::<C>::is_panic(&err) {\n                        Fatal::Panicked\n                    } else {\n                        Fatal::Stopped\n                    })\n                });"), benign=True)

VO = S + "vote/vote.rs"
LSTD = S + "vote/leader_id/leader_id_std.rs"
LADV = S + "vote/leader_id/leader_id_adv.rs"
IOI = S + "raft_state/io_state/io_id.rs"
LID = S + "log_id/mod.rs"
m("p31-vote-none", "P31", (VO, "(true, false) => Some(Ordering::Greater),", "(true, false) => None,"))
m("p31-vote-swap", "P31", (VO, "(true, false) => Some(Ordering::Greater),\n                    (false, true) => Some(Ordering::Less),", "(true, false) => Some(Ordering::Less),\n                    (false, true) => Some(Ordering::Greater),"))
m("p31-vote-eq", "P31", (VO, "Some(Ordering::Equal) => PartialOrd::partial_cmp(&self.committed, &other.committed),", "Some(Ordering::Equal) => PartialOrd::partial_cmp(&other.committed, &self.committed),"))
m("p31-vote-first", "P31", (VO, "        match PartialOrd::partial_cmp(&self.leader_id, &other.leader_id) {", "        if self.committed != other.committed && self.leader_id.get_term() == other.leader_id.get_term() {\n            return PartialOrd::partial_cmp(&self.committed, &other.committed);\n        }\n        match PartialOrd::partial_cmp(&self.leader_id, &other.leader_id) {"))
m("p31-std-ord", "P31", (LSTD, "                        if a == b {\n                            Some(Ordering::Equal)\n                        } else {\n                            None\n                        }", "                        a.partial_cmp(b)"))
m("p31-std-none", "P31", (LSTD, "(None, Some(_)) => Some(Ordering::Less),", "(None, Some(_)) => None,"))
m("p31-io-log", "P31", (IOI, "Ordering::Equal => self.last_log_id().partial_cmp(&other.last_log_id()),", "Ordering::Equal => self.last_log_id().map(|x| x.index).partial_cmp(&other.last_log_id().map(|x| x.index)),"))
m("p31-io-eq", "P31", (IOI, "Ordering::Equal => self.last_log_id().partial_cmp(&other.last_log_id()),", "Ordering::Equal => Some(Ordering::Equal),"))
m("p31-io-none", "P31", (IOI, "            Self::Log(log_io_id) => log_io_id.log_id.as_ref(),\n        }\n    }\n\n    /// Return the `subject`", "            Self::Log(_) => None,\n        }\n    }\n\n    /// Return the `subject`"))
m("p31-logid-idx", "P31", (LID, "#[derive(Debug, Default, Copy, Clone, PartialOrd, Ord, PartialEq, Eq)]", "#[derive(Debug, Default, Copy, Clone, PartialEq, Eq)]"), (LID, "impl<NID: NodeId> RaftLogId<NID> for LogId<NID> {", "impl<NID: NodeId> PartialOrd for LogId<NID> {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\n\nimpl<NID: NodeId> Ord for LogId<NID> {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        self.index.cmp(&other.index).then_with(|| self.leader_id.cmp(&other.leader_id))\n    }\n}\n\nimpl<NID: NodeId> RaftLogId<NID> for LogId<NID> {"))
m("p31-logid-ben", "P31", (LID, "#[derive(Debug, Default, Copy, Clone, PartialOrd, Ord, PartialEq, Eq)]", "#[derive(Debug, Default, Copy, Clone, PartialEq, Eq)]"), (LID, "impl<NID: NodeId> RaftLogId<NID> for LogId<NID> {", "impl<NID: NodeId> PartialOrd for LogId<NID> {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\n\nimpl<NID: NodeId> Ord for LogId<NID> {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        self.leader_id.cmp(&other.leader_id).then_with(|| self.index.cmp(&other.index))\n    }\n}\n\nimpl<NID: NodeId> RaftLogId<NID> for LogId<NID> {"), benign=True)
m("p31-vote-ben", "P31", (VO, "        match PartialOrd::partial_cmp(&self.leader_id, &other.leader_id) {\n            Some(Ordering::Equal) =>", "        let by_leader = self.leader_id.partial_cmp(&other.leader_id);\n        if by_leader == Some(Ordering::Less) || by_leader == Some(Ordering::Greater) {\n            return by_leader;\n        }\n        match by_leader {\n            Some(Ordering::Equal) =>"), benign=True)
m("p31-io-ben", "P31", (IOI, "        let res = self.vote_ref().partial_cmp(other.vote_ref())?;\n        match res {\n            Ordering::Less => Some(Ordering::Less),\n            Ordering::Greater => Some(Ordering::Greater),\n            Ordering::Equal => self.last_log_id().partial_cmp(&other.last_log_id()),\n        }", "        let res = self.vote_ref().partial_cmp(other.vote_ref());\n        if res != Some(Ordering::Equal) {\n            return res;\n        }\n        let last = self.last_log_id();\n        last.partial_cmp(&other.last_log_id())"), benign=True)
MET = S + "metrics/metric.rs"
WAIT = S + "metrics/wait.rs"
m("p28-applied", "P28", (RC, "            last_applied: st.io_applied().copied(),\n            snapshot: st.io_snapshot_last_log_id().copied(),\n            purged: st.io_purged().copied(),\n\n            // --- cluster", "            last_applied: st.committed().copied(),\n            snapshot: st.io_snapshot_last_log_id().copied(),\n            purged: st.io_purged().copied(),\n\n            // --- cluster"))
m("p28-snap", "P28", (RC, "            snapshot: st.io_snapshot_last_log_id().copied(),\n            purged: st.io_purged().copied(),\n            millis", "            snapshot: st.snapshot_last_log_id().copied(),\n            purged: st.io_purged().copied(),\n            millis"))
m("p28-purged", "P28", (RC, "            purged: st.io_purged().copied(),\n\n            // --- cluster", "            purged: st.last_purged_log_id().copied(),\n\n            // --- cluster"))
m("p28-vote", "P28", (RC, "            vote: st.io_state().io_progress.flushed().map(|x| *x.vote_ref()).unwrap_or_default(),\n            state:", "            vote: *st.vote_ref(),\n            state:"))
m("p28-vote-sub", "P28", (RC, "            vote: st.io_state().io_progress.flushed().map(|x| *x.vote_ref()).unwrap_or_default(),\n            last_log_index", "            vote: st.io_state().io_progress.submitted().map(|x| *x.vote_ref()).unwrap_or_default(),\n            last_log_index"))
m("p28-member", "P28", (RC, "let membership_config = st.membership_state.effective().stored_membership().clone();", "let membership_config = st.membership_state.committed().stored_membership().clone();"))
m("p28-leader-uncommitted", "P28", (RC, "        if !vote.is_committed() {\n            return None;\n        }\n\n        // Safe unwrap(): vote that is committed", "        if !vote.is_committed() && self.engine.leader.is_none() && self.engine.candidate.is_some() {\n            return None;\n        }\n\n        // Safe unwrap(): vote that is committed"))
m("p28-leader-learner", "P28", (RC, "        if self.engine.state.membership_state.effective().is_voter(&id) {\n            Some(id)", "        if self.engine.state.membership_state.effective().is_voter(&id) || id == self.id {\n            Some(id)"))
m("p28-order", "P28", (RC, "        tracing::debug!(\"report_metrics: {}\", m);\n        let res = self.tx_metrics.send(m);\n\n        if let Err(err) = res {\n            tracing::error!(error=%err, id=display(self.id), \"error reporting metrics\");\n        }\n", ""), (RC, "        self.tx_data_metrics.send_if_modified(|metrix| {", "        tracing::debug!(\"report_metrics: {}\", m);\n        let res = self.tx_metrics.send(m);\n\n        if let Err(err) = res {\n            tracing::error!(error=%err, id=display(self.id), \"error reporting metrics\");\n        }\n\n        self.tx_data_metrics.send_if_modified(|metrix| {"))
m("p28-skip", "P28", (RC, "        loop {\n            self.flush_metrics();\n", "        self.flush_metrics();\n        loop {\n            if self.engine.output.len() == 0 {\n                self.flush_metrics();\n            }\n"))
m("p28-data", "P28", (RC, "            if data_metrics.ne(metrix) {", "            if data_metrics.last_log != metrix.last_log || data_metrics.last_applied != metrix.last_applied {"))
m("p28-metric-purged", "P28", (MET, "Metric::Purged(v) => Some(self.purged.cmp(v)),", "Metric::Purged(v) => Some(self.snapshot.cmp(v)),"))
m("p28-metric-rev", "P28", (MET, "Metric::AppliedIndex(v) => Some(self.last_applied.index().cmp(v)),", "Metric::AppliedIndex(v) => Some(v.cmp(&self.last_applied.index())),"))
m("p28-metric-idx", "P28", (MET, "Metric::AppliedIndex(v) => self.last_applied.index() == *v,", "Metric::AppliedIndex(v) => self.last_log_index == *v,"))
m("p28-until", "P28", (WAIT, "Condition::EQ(expect) => raft_metrics == expect,", "Condition::EQ(expect) => raft_metrics >= expect,"))
m("p28-wait-helper", "P28", (WAIT, "    pub async fn applied_index_at_least(\n        &self,\n        index: Option<u64>,\n        msg: impl ToString,\n    ) -> Result<RaftMetrics<C>, WaitError> {\n        self.ge(Metric::AppliedIndex(index), msg).await", "    pub async fn applied_index_at_least(\n        &self,\n        index: Option<u64>,\n        msg: impl ToString,\n    ) -> Result<RaftMetrics<C>, WaitError> {\n        self.ge(Metric::LastLogIndex(index), msg).await"))
m("p28-wait-snap", "P28", (WAIT, "self.eq(Metric::Snapshot(Some(snapshot_last_log_id)), msg).await", "self.ge(Metric::Snapshot(Some(snapshot_last_log_id)), msg).await"))
m("p28-wait-end", "P28", (WAIT, "                            return Err(WaitError::ShuttingDown);", "                            return Ok(latest);"))
m("p28-wait-old", "P28", (WAIT, "        let mut rx = self.rx.clone();\n        loop {\n            let latest = rx.borrow_watched().clone();\n", "        let mut rx = self.rx.clone();\n        let mut latest = rx.borrow_watched().clone();\n        loop {\n"), (WAIT, "                        Ok(_) => {\n                            // metrics changed, continue the waiting loop\n                        },", "                        Ok(_) => {\n                            let now = rx.borrow_watched().clone();\n                            if now.last_log_index != latest.last_log_index { latest = now; }\n                        },"))
m("p28-wait-voter", "P28", (WAIT, "            |m| m.current_leader == Some(leader_id),", "            |m| m.current_leader == Some(leader_id) || m.vote.leader_id().voted_for() == Some(leader_id),"))
m("p28-ben", "P28", (WAIT, "            if func(&latest) {", "            let holds = func(&latest);\n            if holds {"), benign=True)
m("p28-ben2", "P28", (RC, "        let vote = self.engine.state.vote_ref();\n\n        if !vote.is_committed() {\n            return None;\n        }\n\n        // Safe unwrap(): vote that is committed has to already have voted for some node.\n        let id = vote.leader_id().voted_for().unwrap();", "        let vote = self.engine.state.vote_ref();\n        let leader = if vote.is_committed() { vote.leader_id().voted_for() } else { None };\n        let id = leader?;"), benign=True)
m("p28-ben3", "P28", (RC, "        let membership_config = st.membership_state.effective().stored_membership().clone();", "        let applied = st.io_applied().copied();\n        let io_vote = st.io_state().io_progress.flushed().map(|x| *x.vote_ref()).unwrap_or_default();\n        let membership_config = st.membership_state.effective().stored_membership().clone();"), (RC, "            vote: st.io_state().io_progress.flushed().map(|x| *x.vote_ref()).unwrap_or_default(),\n            last_log_index", "            vote: io_vote,\n            last_log_index"), (RC, "            last_applied: st.io_applied().copied(),\n            snapshot: st.io_snapshot_last_log_id().copied(),\n            purged: st.io_purged().copied(),\n\n            // --- cluster", "            last_applied: applied,\n            snapshot: st.io_snapshot_last_log_id().copied(),\n            purged: st.io_purged().copied(),\n\n            // --- cluster"), benign=True)
m("p28-ben4", "P28", (MET, "Metric::Applied(v) => Some(self.last_applied.cmp(v)),", "Metric::Applied(v) => self.last_applied.partial_cmp(v),"), benign=True)
m("p28-ben5", "P28", (RC, "            if data_metrics.ne(metrix) {\n                *metrix = data_metrics.clone();\n                return true;\n            }\n            false", "            if data_metrics == *metrix {\n                return false;\n            }\n            *metrix = data_metrics.clone();\n            true"), benign=True)
UT, RCH, EC, TK, CFG = "openraft/src/utime.rs", "openraft/src/raft/runtime_config_handle.rs", "openraft/src/engine/engine_config.rs", "openraft/src/core/tick.rs", "openraft/src/config/config.rs"
m("p37-leader", "P37", (RC, "        if self.engine.state.server_state == ServerState::Leader {\n            tracing::debug!(\"already a leader, do not elect again\");", "        if self.engine.state.server_state == ServerState::Leader && self.engine.leader.is_none() {\n            tracing::debug!(\"already a leader, do not elect again\");"))
m("p37-voter", "P37", (RC, "        if !self.engine.state.membership_state.effective().is_voter(&self.id) {\n            tracing::debug!(\"this node is not a voter\");", "        if self.engine.state.membership_state.effective().get_node(&self.id).is_none() {\n            tracing::debug!(\"this node is not a voter\");"))
m("p37-switch", "P37", (RC, "        if !self.runtime_config.enable_elect.load(Ordering::Relaxed) {", "        if !self.config.enable_elect {"))
m("p37-switch2", "P37", (RC, "        if !self.runtime_config.enable_elect.load(Ordering::Relaxed) {", "        if !self.runtime_config.enable_heartbeat.load(Ordering::Relaxed) {"))
m("p37-exp-lease", "P37", (UT, "Some(utime) => now > utime + self.lease + timeout,", "Some(utime) => now > utime + std::cmp::max(timeout, Duration::default()),"))
m("p37-exp-timeout", "P37", (RC, "if local_vote.is_expired(now, election_timeout) {", "if local_vote.is_expired(now, Duration::from_millis(self.config.heartbeat_interval)) {"))
m("p37-single", "P37", (RC, "        if self.engine.state.membership_state.effective().voter_ids().count() == 1 {", "        if self.engine.state.membership_state.effective().voter_ids().count() <= 2 {"))
m("p37-greater", "P37", (RC, "            if self.engine.is_there_greater_log() {\n                election_timeout += timer_config.smaller_log_timeout;\n            }\n", ""))
m("p37-greater2", "P37", (RC, "                election_timeout += timer_config.smaller_log_timeout;", "                election_timeout = timer_config.smaller_log_timeout.min(election_timeout);"))
m("p37-reset", "P37", (RC, "        // Every time elect, reset this flag.\n        self.engine.reset_greater_log();\n", ""), (RC, "        let now = C::now();\n\n        tracing::debug!(\"try to trigger election by tick, now: {}\", now.display());\n", "        let now = C::now();\n\n        tracing::debug!(\"try to trigger election by tick, now: {}\", now.display());\n        let greater = self.engine.is_there_greater_log();\n        self.engine.reset_greater_log();\n"), (RC, "            if self.engine.is_there_greater_log() {\n                election", "            if greater {\n                election"))
m("p37-setall", "P37", (EI, "        if resp.last_log_id.as_ref() > self.state.last_log_id() {", "        if resp.last_log_id.is_some() {"))
m("p37-lease-all", "P37", (VH, "        let leader_lease = if vote.is_committed() {", "        let leader_lease = if vote.is_committed() || vote.leader_id() >= self.state.vote_ref().leader_id() {"))
m("p37-lease-not", "P37", (VH, "        let leader_lease = if vote.is_committed() {", "        let leader_lease = if !vote.is_committed() {"))
m("p37-touch", "P37", (UT, "        self.last_update = Some(now);\n        if self.lease_enabled {\n            self.lease = lease;\n        }", "        self.last_update = Some(now);\n        self.lease = lease;"))
m("p37-disable", "P37", (UT, "        self.lease = Duration::default();\n        self.lease_enabled = false;", "        self.lease_enabled = false;"))
m("p37-update", "P37", (UT, "        self.lease = lease;\n        self.lease_enabled = true;\n", "        self.lease = lease;\n"))
m("p37-touch-time", "P37", (UT, "        self.last_update = Some(now);\n        if self.lease_enabled {\n            self.lease = lease;\n        }", "        if self.lease_enabled {\n            self.last_update = Some(now);\n            self.lease = lease;\n        }"))
m("p37-notouch", "P37", (VH, "        } else {\n            self.state.vote.touch(C::now(), leader_lease);\n        }", "        } else if !vote.is_committed() {\n            self.state.vote.touch(C::now(), leader_lease);\n        }"))
m("p37-tick", "P37", (TK, "            if !self.enabled.load(Ordering::Relaxed) {\n                continue;\n            }\n\n            i += 1;\n", "            i += 1;\n\n            if !self.enabled.load(Ordering::Relaxed) && i > 1 {\n                continue;\n            }\n"))
m("p37-hb-on", "P37", (RC, "                        if self.runtime_config.enable_heartbeat.load(Ordering::Relaxed) {\n                            self.send_heartbeat(\"tick\");\n                        }", "                        self.send_heartbeat(\"tick\");"))
m("p37-hb-due", "P37", (RC, "                    if now >= t {\n                        if self", "                    if now >= t || self.engine.leader_ref().is_some() {\n                        if self"))
m("p37-hb-next", "P37", (RC, "l.next_heartbeat = C::now() + Duration::from_millis(self.config.heartbeat_interval);", "l.next_heartbeat = C::now() + Duration::from_millis(self.config.election_timeout_max);"))
m("p37-ask", "P37", (RC, "                    ExternalCommand::Elect => {\n", "                    ExternalCommand::Elect if !self.runtime_config.enable_elect.load(Ordering::Relaxed) => {}\n                    ExternalCommand::Elect => {\n"))
m("p37-rt-swap", "P37", (RCH, "self.raft_inner.runtime_config.enable_elect.store(enabled, Ordering::Relaxed);", "self.raft_inner.runtime_config.enable_heartbeat.store(enabled, Ordering::Relaxed);"))
m("p37-rt-init", "P37", (CFG, "enable_elect: AtomicBool::from(config.enable_elect),", "enable_elect: AtomicBool::from(config.enable_tick),"))
m("p37-cfg-lease", "P37", (EC, "leader_lease: Duration::from_millis(config.election_timeout_max),", "leader_lease: Duration::from_millis(config.election_timeout_min),"))
m("p37-cfg-rand", "P37", (CFG, "RT::thread_rng().gen_range(self.election_timeout_min..self.election_timeout_max)", "RT::thread_rng().gen_range(self.heartbeat_interval..self.election_timeout_max)"))
m("p37-ben", "P37", (UT, "            Some(utime) => now > utime + self.lease + timeout,\n            None => true,", "            Some(utime) => {\n                let until = utime + timeout + self.lease;\n                until < now\n            }\n            None => true,"), benign=True)
m("p37-ben2", "P37", (RC, "            let mut election_timeout = timer_config.election_timeout;\n\n            if self.engine.is_there_greater_log() {\n                election_timeout += timer_config.smaller_log_timeout;\n            }\n", "            let election_timeout = if self.engine.is_there_greater_log() {\n                timer_config.election_timeout + timer_config.smaller_log_timeout\n            } else {\n                timer_config.election_timeout\n            };\n"), benign=True)
m("p37-ben3", "P37", (VH, "        let leader_lease = if vote.is_committed() {\n            self.config.timer_config.leader_lease\n        } else {\n            Duration::default()\n        };\n\n        if vote", "        let leader_lease = match vote.is_committed() {\n            true => self.config.timer_config.leader_lease,\n            false => Duration::from_millis(0),\n        };\n        let now = C::now();\n\n        if vote"), (VH, "self.state.vote.update(C::now(), leader_lease, *vote);", "self.state.vote.update(now, leader_lease, *vote);"), (VH, "self.state.vote.touch(C::now(), leader_lease);", "self.state.vote.touch(now, leader_lease);"), benign=True)
m("p37-ben4", "P37", (RC, "        if !self.runtime_config.enable_elect.load(Ordering::Relaxed) {\n            tracing::debug!(\"election is disabled\");\n            return;\n        }\n\n        if self.engine.state.membership_state.effective().voter_ids().count() == 1 {", "        let enabled = self.runtime_config.enable_elect.load(Ordering::Relaxed);\n        let voters = self.engine.state.membership_state.effective().voter_ids().count();\n        if !enabled {\n            return;\n        }\n\n        if voters == 1 {"), (RC, "        if self.engine.state.server_state == ServerState::Leader {\n            tracing::debug!(\"already a leader, do not elect again\");\n            return;\n        }\n\n        if !self.engine.state.membership_state.effective().is_voter(&self.id) {", "        if self.engine.state.server_state == ServerState::Leader || !self.engine.state.membership_state.effective().is_voter(&self.id) {"), benign=True)
m("p37-ben5", "P37", (RC, "                let heartbeat_at = self.engine.leader_ref().map(|l| l.next_heartbeat);\n                if let Some(t) = heartbeat_at {\n                    if now >= t {", "                if let Some(t) = self.engine.leader_ref().map(|l| l.next_heartbeat) {\n                    let due = t <= now;\n                    if due {"), benign=True)
m("p37-ben6", "P37", (UT, "        self.data = data;\n        self.last_update = Some(now);\n        self.lease = lease;\n        self.lease_enabled = true;\n", "        self.lease_enabled = true;\n        self.touch(now, lease);\n        self.data = data;\n"), benign=True)
LD, CAND = S + "proposer/leader.rs", S + "proposer/candidate.rs"
m("p36-record", "P36", (LD, "        if last.index > first.index {\n            last.index -= 1;", "        if last.index > first.index + 1 {\n            last.index -= 1;"))
m("p36-same", "P36", (LD, "            entry.set_log_id(&last);\n            tracing::debug!(\"assign log id: {}\", last);\n            last.index += 1;", "            entry.set_log_id(&last);\n            tracing::debug!(\"assign log id: {}\", last);\n            if last.index > first.index || last.index > 0 && first.index % 2 == 0 {\n                last.index += 1;\n            }"))
m("p36-first", "P36", (LD, "        let last_log_id = last_leader_log_id.last().copied();", "        let last_log_id = last_leader_log_id.first().copied();"))
m("p36-comm", "P36", (RS, "        let last_leader_log_ids = self.log_ids.by_last_leader();\n\n        Leader::new(", "        let last_leader_log_ids = self.committed.as_slice();\n\n        Leader::new("))
m("p36-cand", "P36", (EI, "let last_log_id = self.state.last_log_id().copied();\n\n        let membership = self", "let last_log_id = self.state.committed().copied();\n\n        let membership = self"))
m("p36-replace", "P36", (VH, "            if l.committed_vote.leader_id() == self.state.vote_ref().leader_id() {", "            if l.committed_vote.leader_id() == self.state.vote_ref().leader_id() && l.last_log_id().is_none() {"))
m("p36-ben", "P36", (LD, "        let first = LogId::new(committed_leader_id, self.last_log_id().next_index());\n        let mut last = first;\n\n        for entry in entries {\n            entry.set_log_id(&last);\n            tracing::debug!(\"assign log id: {}\", last);\n            last.index += 1;\n        }\n\n        if last.index > first.index {\n            last.index -= 1;\n            self.last_log_id = Some(last);\n        }", "        for entry in entries {\n            let id = LogId::new(committed_leader_id, self.last_log_id().next_index());\n            entry.set_log_id(&id);\n            self.last_log_id = Some(id);\n        }"), benign=True)

# P35: requests in flight
INF = S + "progress/inflight/mod.rs"
m("p35-notidle", "P35", (PE, "if !self.inflight.is_none() {", "if matches!(self.inflight, Inflight::Snapshot { .. }) {"))
m("p35-conf-plus", "P35", (PE, "        self.searching_end = conflict;", "        self.searching_end = conflict + 1;"))
m("p35-noraise", "P35", (PE, "        self.searching_end = std::cmp::max(self.searching_end, matching_next);", "        debug_assert!(self.searching_end >= matching_next);"))
m("p35-match-ben", "P35", (PE, "        self.searching_end = std::cmp::max(self.searching_end, matching_next);", "        if self.searching_end < matching_next {\n            self.searching_end = matching_next;\n        }"), benign=True)
m("p35-nolimit", "P35", (PE, "let end = std::cmp::min(start + max_entries, last_next);", "let end = if max_entries == 0 { start } else { last_next };"))
m("p35-nolimit2", "P35", (PE, "let end = std::cmp::min(start + max_entries, last_next);", "let end = std::cmp::max(std::cmp::min(start + max_entries, last_next), self.searching_end);"))
m("p35-limit-ben", "P35", (PE, "let end = std::cmp::min(start + max_entries, last_next);", "let mut end = start + max_entries;\n        if end > last_next {\n            end = last_next;\n        }"), benign=True)
m("p35-snap-le", "P35", (PE, "if self.searching_end < purge_upto_next {", "if self.searching_end <= purge_upto_next {"))
m("p35-snap-match", "P35", (PE, "if self.searching_end < purge_upto_next {", "if self.matching.next_index() < purge_upto_next {"))
m("p35-snap-never", "P35", (PE, "if self.searching_end < purge_upto_next {", "if self.searching_end < purge_upto_next && self.matching.is_none() {"))
m("p35-purged", "P35", (PE, "        if start < purge_upto_next {\n            start = purge_upto_next;\n        }", "        if start < purge_upto_next && self.matching.is_some() {\n            start = purge_upto_next;\n        }"))
m("p35-purged2", "P35", (PE, "        if start < purge_upto_next {\n            start = purge_upto_next;\n        }\n", ""), (PE, "let mut start", "let start"))
m("p35-purged-ben", "P35", (PE, "        if start < purge_upto_next {\n            start = purge_upto_next;\n        }\n", "        start = std::cmp::max(start, purge_upto_next);\n"), benign=True)
m("p35-loop", "P35", (RC, "            // Keep replicating to a target if the replication stream to it is idle.\n            if let Ok(mut lh) = self.engine.leader_handler() {\n                lh.replication_handler().initiate_replication();\n            }\n            self.run_engine_commands().await?;", "            self.run_engine_commands().await?;"))
m("p35-loop2", "P35", (RC, "            if let Ok(mut lh) = self.engine.leader_handler() {\n                lh.replication_handler().initiate_replication();\n            }\n            self.run", "            if notify_processed > 1 || raft_msg_processed > 0 {\n                if let Ok(mut lh) = self.engine.leader_handler() {\n                    lh.replication_handler().initiate_replication();\n                }\n            }\n            self.run"))
m("p35-skip", "P35", (RH, "            if id == &self.config.id {\n                continue;\n            }\n\n            let t", "            if id == &self.config.id || prog_entry.matching.as_ref() == self.state.committed() {\n                continue;\n            }\n\n            let t"))
m("p35-skip2", "P35", (RH, "                Ok(inflight) => {\n                    Self::send_to_target(self.output, id, inflight);\n                }", "                Ok(inflight) => {\n                    if inflight.is_sending_snapshot() && self.state.snapshot_meta.last_log_id.is_none() {\n                        continue;\n                    }\n                    Self::send_to_target(self.output, id, inflight);\n                }"))
m("p35-each-ben", "P35", (RH, "            let t = prog_entry.next_send(self.state, self.config.max_payload_entries);", "            if !prog_entry.inflight.is_none() {\n                continue;\n            }\n            let t = prog_entry.next_send(self.state, self.config.max_payload_entries);"), benign=True)
m("p35-err-backoff", "P35", (REPL, "                                if need_notify {\n                                    self.send_progress_error(err);", "                                if need_notify && self.backoff.is_none() {\n                                    self.send_progress_error(err);"))
m("p35-err-remote", "P35", (REPL, "RPCError::RemoteError(_) => false,", "RPCError::RemoteError(_) => {\n                                    tracing::warn!(\"remote error\");\n                                    continue;\n                                }"))
m("p35-hb-report", "P35", (REPL, "self.send_log_entries(d, false).await", "self.send_log_entries(d, m.is_none()).await"))
m("p35-hb-conf", "P35", (REPL, "                if has_payload {\n                    self.notify_progress(ReplicationResult(Err(conflict)));\n                }", "                self.notify_progress(ReplicationResult(Err(conflict)));"))
m("p35-hb-retry", "P35", (REPL, "                                    if need_notify {\n                                        self.next_action = Some(Data::Logs(log_data.unwrap()));\n                                    }\n                                    need_notify", "                                    self.next_action = Some(Data::Logs(log_data.unwrap()));\n                                    true"))
m("p35-part-drop", "P35", (REPL, "                if has_payload {\n                    self.notify_progress(ReplicationResult(Ok(matching)));\n                    Ok(self.next_action_to_send(matching, log_ids))\n                } else {\n                    Ok(None)\n                }\n            }\n            AppendEntriesResponse::HigherVote", "                if has_payload {\n                    self.notify_progress(ReplicationResult(Ok(matching)));\n                }\n                Ok(None)\n            }\n            AppendEntriesResponse::HigherVote"))
m("p35-part-silent", "P35", (REPL, "                if has_payload {\n                    self.notify_progress(ReplicationResult(Ok(matching)));\n                    Ok(self.next_action_to_send(matching, log_ids))\n                } else {\n                    Ok(None)\n                }\n            }\n            AppendEntriesResponse::HigherVote", "                if has_payload {\n                    if matching < log_ids.last {\n                        self.matching = matching;\n                        return Ok(None);\n                    }\n                    self.notify_progress(ReplicationResult(Ok(matching)));\n                }\n                Ok(None)\n            }\n            AppendEntriesResponse::HigherVote"))
m("p35-next-prev", "P35", (REPL, "Some(Data::new_logs(LogIdRange::new(matching, log_ids.last)))", "Some(Data::new_logs(LogIdRange::new(log_ids.prev, log_ids.last)))"))
m("p35-next-le", "P35", (REPL, "        if matching < log_ids.last {\n            Some(Data::new_logs", "        if matching <= log_ids.last {\n            Some(Data::new_logs"))
m("p35-next-cond", "P35", (REPL, "        if matching < log_ids.last {\n            Some(Data::new_logs", "        if matching < log_ids.last && matching > log_ids.prev {\n            Some(Data::new_logs"))
m("p35-data-drop", "P35", (REPL, "                self.next_action = Some(d);\n", "                if self.backoff.is_none() {\n                    self.next_action = Some(d);\n                }\n"))
m("p35-comm-over", "P35", (REPL, "                if self.next_action.is_none() {\n                    self.next_action = Some(Data::new_committed());\n                }", "                self.next_action = Some(Data::new_committed());"))
m("p35-cb-err", "P35", (REPL, "        if let Some(tx_noty) = weak_tx.upgrade() {", "        if res.is_err() {\n            return;\n        }\n        if let Some(tx_noty) = weak_tx.upgrade() {"))
m("p35-rebuild", "P35", (RH, "                // Reset and resend(by self.send_to_all()) replication requests.\n                prog_entry.inflight = Inflight::None;\n", ""))
m("p35-rebuild2", "P35", (RH, "                // Reset and resend(by self.send_to_all()) replication requests.\n                prog_entry.inflight = Inflight::None;\n", "                if !prog_entry.inflight.is_sending_snapshot() {\n                    prog_entry.inflight = Inflight::None;\n                }\n"))
m("p35-err-keep", "P35", (RH, "                let p = self.leader.progress.get_mut(&target).unwrap();\n                p.inflight = Inflight::None;", "                let p = self.leader.progress.get_mut(&target).unwrap();\n                if p.inflight.is_sending_log() {\n                    p.inflight = Inflight::None;\n                }"))
m("p35-ack-snap", "P35", (INF, "            Inflight::Snapshot { last_log_id } => {\n                debug_assert_eq!(&upto, last_log_id);\n                *self = Inflight::None;\n            }", "            Inflight::Snapshot { last_log_id } => {\n                if &upto == last_log_id {\n                    *self = Inflight::None;\n                }\n            }"))
m("p35-ack-logs", "P35", (INF, "                    Inflight::logs(upto, log_id_range.last)", "                    let _ = log_id_range.last;\n                    let _ = upto;\n                    Inflight::None"))
m("p35-hb-reset", "P35", (RH, "        let granted = *self\n            .leader\n            .clock_progress", "        if let Some(p) = self.leader.progress.get_mut(&node_id) {\n            if p.inflight.is_sending_snapshot() {\n                p.inflight = Inflight::None;\n            }\n        }\n        let granted = *self\n            .leader\n            .clock_progress"))
m("p35-spawn-ben", "P35", (REPL, "                            if retry {\n                                debug_assert!(self.next_action.is_some(), \"next_action must be Some\");\n                            } else {\n", "                            if !retry {\n"), benign=True)

# P30: bundled stores
MEMS = "stores/memstore/src/lib.rs"
ROCKS = "stores/rocksstore/src/lib.rs"
SLED = "stores/sledstore/src/lib.rs"
m("p30-r-voteflush", "P30", (ROCKS, "        self.db.flush_wal(true).map_err(|e| StorageError::write_vote(&e))?;\n", ""))
m("p30-r-votenosync", "P30", (ROCKS, "self.db.flush_wal(true).map_err(|e| StorageError::write_vote(&e))?;", "self.db.flush_wal(false).map_err(|e| StorageError::write_vote(&e))?;"))
m("p30-r-appendnosync", "P30", (ROCKS, "        self.db.flush_wal(true).map_err(|e| StorageError::write_logs(&e))?;\n\n        // If there", "        // If there"))
m("p30-r-appendearly", "P30", (ROCKS, "        self.db.flush_wal(true).map_err(|e| StorageError::write_logs(&e))?;\n\n        // If there is error, the callback will be dropped.\n        callback.io_completed(Ok(()));", "        callback.io_completed(Ok(()));\n        self.db.flush_wal(true).map_err(|e| StorageError::write_logs(&e))?;"))
m("p30-r-appenderr", "P30", (ROCKS, "        self.db.flush_wal(true).map_err(|e| StorageError::write_logs(&e))?;\n\n        // If there", "        if let Err(e) = self.db.flush_wal(true) {\n            tracing::warn!(\"flush: {}\", e);\n        }\n\n        // If there"))
m("p30-r-truncnosync", "P30", (ROCKS, "self.db.delete_range_cf(self.cf_logs(), &from, &to).map_err(|e| StorageError::write_logs(&e))?;\n\n        self.db.flush_wal(true).map_err(|e| StorageError::write_logs(&e))?;\n        Ok(())", "self.db.delete_range_cf(self.cf_logs(), &from, &to).map_err(|e| StorageError::write_logs(&e))?;\n\n        Ok(())"))
m("p30-r-truncplus", "P30", (ROCKS, "        let from = id_to_bin(log_id.index);", "        let from = id_to_bin(log_id.index + 1);"))
m("p30-r-purgeexcl", "P30", (ROCKS, "let to = id_to_bin(log_id.index + 1);", "let to = id_to_bin(log_id.index);"))
m("p30-r-purgeorder", "P30", (ROCKS, "        self.put_meta::<meta::LastPurged>(&log_id)?;\n\n        let from = id_to_bin(0);\n        let to = id_to_bin(log_id.index + 1);\n        self.db.delete_range_cf(self.cf_logs(), &from, &to).map_err(|e| StorageError::write_logs(&e))?;\n", "        let from = id_to_bin(0);\n        let to = id_to_bin(log_id.index + 1);\n        self.db.delete_range_cf(self.cf_logs(), &from, &to).map_err(|e| StorageError::write_logs(&e))?;\n        self.put_meta::<meta::LastPurged>(&log_id)?;\n"))
m("p30-r-readstart", "P30", (ROCKS, "std::ops::Bound::Excluded(x) => id_to_bin(*x + 1),", "std::ops::Bound::Excluded(x) => id_to_bin(*x),"))
m("p30-r-readend", "P30", (ROCKS, "            if !range.contains(&id) {\n                break;\n            }\n", "            if std::ops::Bound::Included(&id) == range.end_bound() {\n                break;\n            }\n"))
m("p30-r-state", "P30", (ROCKS, "            None => last_purged_log_id,\n            Some(x) => Some(x),", "            None => None,\n            Some(x) => Some(x),"))
m("p30-r-state2", "P30", (ROCKS, "        let last_log_id = match last_log_id {\n            None => last_purged_log_id,\n            Some(x) => Some(x),", "        let last_log_id = match last_purged_log_id {\n            None => last_log_id,\n            Some(x) => Some(x),"))
m("p30-r-memb", "P30", (ROCKS, "                    sm.last_membership = StoredMembership::new(Some(entry.log_id), mem.clone());\n", "                    if mem.get_joint_config().len() == 1 {\n                        sm.last_membership = StoredMembership::new(Some(entry.log_id), mem.clone());\n                    }\n"))
m("p30-r-pos", "P30", (ROCKS, "            sm.last_applied_log = Some(*entry.get_log_id());\n\n            match entry.payload {\n                EntryPayload::Blank => res.push(RocksResponse { value: None }),", "            match entry.payload {\n                EntryPayload::Blank => res.push(RocksResponse { value: None }),"), (ROCKS, "                        sm.data.insert(key.clone(), value.clone());", "                        sm.last_applied_log = Some(entry.log_id);\n                        sm.data.insert(key.clone(), value.clone());"))
m("p30-r-buildraw", "P30", (ROCKS, "        if stored.map(|s| s.meta.last_log_id) <= Some(last_applied_log) {", "        if stored.map(|s| s.meta.last_log_id) != Some(last_applied_log) {"))
m("p30-r-buildmemb", "P30", (ROCKS, "            last_log_id: last_applied_log,\n            last_membership,", "            last_log_id: last_applied_log,\n            last_membership: stored_membership,"), (ROCKS, "        let last_membership = self.sm.last_membership.clone();\n", "        let stored_membership = match self.read_snapshot()? {\n            Some(s) => s.meta.last_membership,\n            None => self.sm.last_membership.clone(),\n        };\n"))
m("p30-r-instflush", "P30", (ROCKS, "        self.db.flush_wal(true).map_err(|e| StorageError::write_snapshot(Some(meta.signature()), &e))?;\n", ""))
m("p30-r-instnosm", "P30", (ROCKS, "        self.sm = updated_state_machine;\n", "        if updated_state_machine.last_applied_log > self.sm.last_applied_log {\n            self.sm = updated_state_machine;\n        }\n"))
m("p30-r-instnolock", "P30", (ROCKS, "        let _guard = self.snapshot_lock.lock().unwrap();\n\n        self.db\n            .put_cf(self.db.cf_handle(\"sm_meta\")", "        drop(self.snapshot_lock.lock().unwrap());\n\n        self.db\n            .put_cf(self.db.cf_handle(\"sm_meta\")"))
m("p30-r-cur", "P30", (ROCKS, "        let snapshot = match self.read_snapshot()? {\n            Some(x) => x,\n            None => return Ok(None),\n        };\n\n        Ok(Some(Snapshot {", "        let snapshot = match self.read_snapshot()? {\n            Some(x) if x.meta.last_log_id.is_some() => x,\n            _ => return Ok(None),\n        };\n\n        Ok(Some(Snapshot {"))
m("p30-r-restore", "P30", (ROCKS, "            state_machine.sm = prev;", "            if !prev.data.is_empty() {\n                state_machine.sm = prev;\n            }"))
m("p30-r-trunc-ben", "P30", (ROCKS, "        let from = id_to_bin(log_id.index);\n        let to = id_to_bin(0xff_ff_ff_ff_ff_ff_ff_ff);", "        let first = log_id.index;\n        let from = id_to_bin(first);\n        let to = id_to_bin(u64::MAX);"), benign=True)
m("p30-r-app-ben", "P30", (ROCKS, "            let id = id_to_bin(entry.log_id.index);\n            assert_eq!(bin_to_id(&id), entry.log_id.index);\n            self.db", "            let index = entry.get_log_id().index;\n            let id = id_to_bin(index);\n            self.db"), benign=True)
m("p30-r-put-ben", "P30", (ROCKS, "        self.put_meta::<meta::Vote>(vote)?;\n        self.db.flush_wal(true).map_err(|e| StorageError::write_vote(&e))?;\n        Ok(())", "        self.put_meta::<meta::Vote>(vote)?;\n        self.db.flush_wal(true).map_err(|e| StorageError::write_vote(&e))"), benign=True)
m("p30-r-cmp-ben", "P30", (ROCKS, "        if stored.map(|s| s.meta.last_log_id) <= Some(last_applied_log) {\n            self.db\n", "        let newer = match &stored {\n            Some(s) => s.meta.last_log_id > last_applied_log,\n            None => false,\n        };\n        if !newer {\n            self.db\n"), benign=True)
m("p30-m-vote", "P30", (MEMS, "        *h = Some(*vote);", "        if *h < Some(*vote) || vote.committed {\n            *h = Some(*vote);\n        }"))
m("p30-m-trunc", "P30", (MEMS, "log.range(log_id.index..)", "log.range(log_id.index + 1..)"))
m("p30-m-purge", "P30", (MEMS, "log.range(..=log_id.index)", "log.range(..log_id.index)"))
m("p30-m-truncpurge", "P30", (MEMS, "log.range(log_id.index..)", "log.range(..=log_id.index)"))
m("p30-m-state", "P30", (MEMS, "        let last = match last {\n            None => last_purged,\n            Some(x) => Some(x),\n        };\n", ""))
m("p30-m-apply", "P30", (MEMS, "                    res.push(ClientResponse(previous));", "                    if previous.is_some() {\n                        res.push(ClientResponse(previous));\n                    }"))
m("p30-m-memb", "P30", (MEMS, "StoredMembership::new(Some(entry.log_id), mem.clone())", "StoredMembership::new(*sm.last_membership.log_id(), mem.clone())"))
m("p30-m-buildtwo", "P30", (MEMS, "            last_applied_log = sm.last_applied_log;\n            last_membership = sm.last_membership.clone();\n\n            if let Some(d) = self.block.get_blocking(&BlockOperation::BuildSnapshot) {\n                tracing::info!(?d, \"blocking snapshot build\");\n                tokio::time::sleep(d).await;\n            }\n        }", "            if let Some(d) = self.block.get_blocking(&BlockOperation::BuildSnapshot) {\n                tracing::info!(?d, \"blocking snapshot build\");\n                tokio::time::sleep(d).await;\n            }\n        }\n        {\n            let sm = self.sm.read().await;\n            last_applied_log = sm.last_applied_log;\n            last_membership = sm.last_membership.clone();\n        }"))
m("p30-m-buildtoc", "P30", (MEMS, "            let mut current_snapshot = self.current_snapshot.write().await;\n\n            // A newer snapshot may have been installed while this one was being built: keep the newer one.\n            if current_snapshot.as_ref().map(|s| s.meta.last_log_id) <= Some(last_applied_log) {\n                *current_snapshot = Some(snapshot);\n            }", "            let older = {\n                let current_snapshot = self.current_snapshot.read().await;\n                current_snapshot.as_ref().map(|s| s.meta.last_log_id) <= Some(last_applied_log)\n            };\n            if older {\n                *self.current_snapshot.write().await = Some(snapshot);\n            }"))
m("p30-m-inst", "P30", (MEMS, "        *current_snapshot = Some(new_snapshot);\n        Ok(())", "        if current_snapshot.is_none() {\n            *current_snapshot = Some(new_snapshot);\n        }\n        Ok(())"))
m("p30-m-append", "P30", (MEMS, "            log.insert(entry.log_id.index, s);", "            log.entry(entry.log_id.index).or_insert(s);"))
m("p30-m-append2", "P30", (MEMS, "            log.insert(entry.log_id.index, s);", "            let next = log.keys().next_back().map_or(0, |x| x + 1);\n            log.insert(next.max(entry.log_id.index), s);"))
m("p30-m-cb", "P30", (MEMS, "        callback.io_completed(Ok(()));", "        if !log.is_empty() {\n            callback.io_completed(Ok(()));\n        }"))
m("p30-m-read", "P30", (MEMS, "                entries.push(ent);", "                entries.insert(0, ent);"))
m("p30-m-trunc-ben", "P30", (MEMS, "            let keys = log.range(log_id.index..).map(|(k, _v)| *k).collect::<Vec<_>>();\n            for key in keys {\n                log.remove(&key);\n            }", "            let _removed = log.split_off(&log_id.index);"), benign=True)
m("p30-m-trunc2-ben", "P30", (MEMS, "            let keys = log.range(log_id.index..).map(|(k, _v)| *k).collect::<Vec<_>>();\n            for key in keys {\n                log.remove(&key);\n            }", "            let first = log_id.index;\n            let mut keys = Vec::new();\n            for (k, _v) in log.range(first..) {\n                keys.push(*k);\n            }\n            for key in keys.iter() {\n                log.remove(key);\n            }"), benign=True)
m("p30-m-purge-ben", "P30", (MEMS, "            let keys = log.range(..=log_id.index).map(|(k, _v)| *k).collect::<Vec<_>>();\n            for key in keys {\n                log.remove(&key);\n            }", "            log.retain(|k, _v| *k > log_id.index);"), benign=True)
m("p30-m-vote-ben", "P30", (MEMS, "        let mut h = self.vote.write().await;\n\n        *h = Some(*vote);", "        self.vote.write().await.replace(*vote);"), benign=True)
m("p30-m-state-ben", "P30", (MEMS, "        let last = match last {\n            None => last_purged,\n            Some(x) => Some(x),\n        };\n", "        let last = last.or(last_purged);\n"), benign=True)
m("p30-m-apply-ben", "P30", (MEMS, "            sm.last_applied_log = Some(entry.log_id);\n\n            match entry.payload {\n                EntryPayload::Blank => res.push(ClientResponse(None)),\n                EntryPayload::Normal(ref data) => {\n                    let previous = sm.client_status.insert(data.client.clone(), data.status.clone());\n                    res.push(ClientResponse(previous));\n                }\n                EntryPayload::Membership(ref mem) => {\n                    sm.last_membership = StoredMembership::new(Some(entry.log_id), mem.clone());\n                    res.push(ClientResponse(None))\n                }\n            };", "            let log_id = entry.log_id;\n            let resp = match entry.payload {\n                EntryPayload::Blank => ClientResponse(None),\n                EntryPayload::Normal(data) => ClientResponse(sm.client_status.insert(data.client, data.status)),\n                EntryPayload::Membership(mem) => {\n                    sm.last_membership = StoredMembership::new(Some(log_id), mem);\n                    ClientResponse(None)\n                }\n            };\n            sm.last_applied_log = Some(log_id);\n            res.push(resp);"), benign=True)
m("p30-s-voteflush", "P30", (SLED, "        store_tree.insert(b\"vote\", val).map_err(write_vote_err)?;\n\n        store_tree.flush_async().await.map_err(write_vote_err)?;\n", "        store_tree.insert(b\"vote\", val).map_err(write_vote_err)?;\n"))
m("p30-s-voteflush2", "P30", (SLED, "        store_tree.flush_async().await.map_err(write_vote_err)?;\n", "        let _flushed = store_tree.flush_async();\n"))
m("p30-s-votekey", "P30", (SLED, "let val = store_tree.get(b\"vote\").map_err(read_vote_err)?;", "let val = store_tree.get(b\"vote_\").map_err(read_vote_err)?;"))
m("p30-s-snapflush", "P30", (SLED, "        store_tree\n            .flush_async()\n            .await\n            .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), &e))\n            .map(|_| ())", "        let _ = meta;\n        Ok(())"))
m("p30-s-appendbatch", "P30", (SLED, "        logs_tree.apply_batch(batch).map_err(write_logs_err)?;\n\n        logs_tree.flush_async().await.map_err(write_logs_err)?;\n        callback", "        logs_tree.flush_async().await.map_err(write_logs_err)?;\n        logs_tree.apply_batch(batch).map_err(write_logs_err)?;\n        callback"))
m("p30-s-trunc", "P30", (SLED, "        let from = id_to_bin(log_id.index);\n        let to = id_to_bin(0xff", "        let from = id_to_bin(log_id.index);\n        let to = id_to_bin(log_id.index + 0xff"))
m("p30-s-purge", "P30", (SLED, "from.as_slice()..=to.as_slice()", "from.as_slice()..to.as_slice()"))
m("p30-s-purgeorder", "P30", (SLED, "        self.set_last_purged_(log_id).await?;\n        let from", "        let from"), (SLED, "        logs_tree.apply_batch(batch_del).map_err(write_logs_err)?;\n\n        logs_tree.flush_async().await.map_err(write_logs_err)?;\n        Ok(())", "        logs_tree.apply_batch(batch_del).map_err(write_logs_err)?;\n\n        logs_tree.flush_async().await.map_err(write_logs_err)?;\n        self.set_last_purged_(log_id).await?;\n        Ok(())"))
m("p30-s-state", "P30", (SLED, "std::cmp::max(last_log_id, last_purged)", "std::cmp::min(last_log_id, last_purged)"))
m("p30-s-state2", "P30", (SLED, "                last_purged_log_id: last_purged,\n                last_log_id: last_purged,", "                last_purged_log_id: last_purged,\n                last_log_id: None,"))
m("p30-s-applytx", "P30", (SLED, "                sm.set_last_applied_log_tx(tx_state_machine, entry.log_id)?;\n", ""), (SLED, "        let result_vec = trans_res.map_err(|e| StorageError::write(&e))?;\n", "        let result_vec = trans_res.map_err(|e| StorageError::write(&e))?;\n        if let Some(last) = entries.last() {\n            let value = serde_json::to_vec(&last.log_id).map_err(write_sm_err)?;\n            state_machine.insert(b\"last_applied_log\", value).map_err(write_err)?;\n        }\n"))
m("p30-s-readbound", "P30", (SLED, "            .take_while(|(id, _)| range.contains(id))\n", "            .take_while(|(id, _)| !matches!(range.end_bound(), std::ops::Bound::Included(x) if id > x))\n"))
m("p30-s-inst", "P30", (SLED, "                r.set_last_membership_tx(tx_state_machine, sm.last_membership.clone())\n            })\n            .map_err(|e| StorageError::write(&e))?;\n", "                if sm.last_membership.log_id().is_some() {\n                    r.set_last_membership_tx(tx_state_machine, sm.last_membership.clone())?;\n                }\n                Ok(())\n            })\n            .map_err(|e: sled::transaction::TransactionError<AnyError>| StorageError::write(&e))?;\n"))
m("p30-s-instdrop", "P30", (SLED, "            *state_machine = ExampleStateMachine::from_serializable(updated_state_machine, self.db.clone()).await?;\n\n            self.set_current_snapshot_(new_snapshot).await?;\n        }", "            *state_machine = ExampleStateMachine::from_serializable(updated_state_machine, self.db.clone()).await?;\n        }\n        self.set_current_snapshot_(new_snapshot).await?;"))
m("p30-s-buildnolock", "P30", (SLED, "            let _state_machine = self.state_machine.write().await;\n            let stored", "            let _ = self.state_machine.write().await;\n            let stored"))
m("p30-s-curdata", "P30", (SLED, "            let state_machine = SerializableExampleStateMachine::from(&*self.state_machine.read().await);\n            data = serde_json::to_vec(&state_machine)", "            let state_machine = SerializableExampleStateMachine::from(&*self.state_machine.read().await);\n            let again = SerializableExampleStateMachine::from(&*self.state_machine.read().await);\n            data = serde_json::to_vec(&again)"))
m("p30-s-vote-ben", "P30", (SLED, "        self.set_vote_(vote).await\n", "        self.set_vote_(vote).await?;\n        Ok(())\n"), benign=True)
m("p30-s-purge-ben", "P30", (SLED, "        let from = id_to_bin(0);\n        let to = id_to_bin(log_id.index);\n        let logs_tree = logs(&self.db);\n        let entries = logs_tree.range::<&[u8], _>(from.as_slice()..=to.as_slice());", "        let to = id_to_bin(log_id.index);\n        let logs_tree = logs(&self.db);\n        let entries = logs_tree.range::<&[u8], _>(..=to.as_slice());"), benign=True)
m("p30-s-state-ben", "P30", (SLED, "        let last_log_id = std::cmp::max(last_log_id, last_purged);\n", ""), benign=True)

# ---- P33 -----------------------------------------------------------------------------
REG = "            if Some(&purge_upto) > self.state.purge_upto() {\n                self.update_purge_upto(purge_upto);\n            }"
m("p33-keep-off", "P33", (LOGH, "let log_id = self.state.log_ids.get(purge_end - 1);", "let log_id = self.state.log_ids.get(purge_end);"))
m("p33-keep-none", "P33", (LOGH, ".next_index().saturating_sub(max_keep);", ".next_index();"))
m("p33-keep-swap", "P33", (EC, "max_in_snapshot_log_to_keep: config.max_in_snapshot_log_to_keep,", "max_in_snapshot_log_to_keep: config.purge_batch_size,"))
m("p33-keep-committed", "P33", (LOGH, "self.state.snapshot_meta.last_log_id.next_index().saturating_sub(max_keep);", "self.state.committed().next_index().saturating_sub(max_keep);"))
m("p33-batch-none", "P33", (LOGH, "if st.last_purged_log_id().next_index().saturating_add(batch_size) > purge_end {", "if st.last_purged_log_id().next_index() >= purge_end {"))
m("p33-batch-ge", "P33", (LOGH, "saturating_add(batch_size) > purge_end {", "saturating_add(batch_size) >= purge_end {"))
m("p33-batch-sched", "P33", (LOGH, "if st.last_purged_log_id().next_index().saturating_add(batch_size) > purge_end {", "if st.purge_upto().next_index().saturating_add(batch_size) > purge_end {"))
m("p33-batch-wrap", "P33", (LOGH, "st.last_purged_log_id().next_index().saturating_add(batch_size) > purge_end", "st.last_purged_log_id().next_index() + batch_size > purge_end"))
m("p33-batch-zero", "P33", (LOGH, "self.config.purge_batch_size.max(1);", "self.config.purge_batch_size;"))
m("p33-regress", "P33", (LOGH, REG, "            self.update_purge_upto(purge_upto);"))
m("p33-regress2", "P33", (LOGH, "if Some(&purge_upto) > self.state.purge_upto() {", "if Some(&purge_upto) > self.state.last_purged_log_id() {"))
m("p33-nopolicy", "P33", (EI, "        self.log_handler().schedule_policy_based_purge();\n", ""))
m("p33-notry", "P33", (EI, "        self.log_handler().schedule_policy_based_purge();\n        self.try_purge_log();", "        self.log_handler().schedule_policy_based_purge();"))
m("p33-noretry", "P33", (RH, "        // Thus we just try again to purge when progress is updated.\n        self.try_purge_log();", "        // Thus we just try again to purge when progress is updated."))
m("p33-retry-ok", "P33", (RH, "                    self.update_matching(target, matching);\n", "                    self.update_matching(target, matching);\n                    self.try_purge_log();\n", 0), (RH, "        // Thus we just try again to purge when progress is updated.\n        self.try_purge_log();", ""))
m("p33-follower-defer", "P33", (EI, "            // For follower/learner, no other tasks are using logs, just purge.\n            self.log_handler().purge_log();", "            // For follower/learner, no other tasks are using logs, just purge.\n            if self.state.vote_ref().is_committed() {\n                self.log_handler().purge_log();\n            }"))
m("p33-user-snap", "P33", (EI, "let log_id = self.state.get_log_id(index).unwrap();\n\n        tracing::info!(purge_upto", "let log_id = snapshot_last_log_id;\n\n        tracing::info!(purge_upto"))
m("p33-user-idx", "P33", (EI, "        if index > snapshot_last_log_id.index {", "        if index != snapshot_last_log_id.index {"))
m("p33-user-drop", "P33", (EI, "                snapshot_last_log_id\n            );\n            index = snapshot_last_log_id.index;", "                snapshot_last_log_id\n            );\n            return;"))
m("p33-user-sched", "P33", (EI, "        if index < scheduled.next_index() {", "        if index < self.state.last_purged_log_id().next_index() {"))
m("p33-user-notry", "P33", (EI, "        self.log_handler().update_purge_upto(log_id);\n        self.try_purge_log();", "        self.log_handler().update_purge_upto(log_id);"))
m("p33-user-off", "P33", (RC, "self.engine.trigger_purge_log(upto);", "self.engine.trigger_purge_log(upto.saturating_sub(1));"))
m("p33-pol-gt", "P33", (CFG, "state.committed().next_index() >= state", "state.committed().next_index() > state"))
m("p33-pol-last", "P33", (CFG, "state.committed().next_index() >= state", "state.last_log_id().next_index() >= state"))
m("p33-pol-purged", "P33", (CFG, "state.snapshot_last_log_id().next_index().saturating_add", "state.last_purged_log_id().next_index().saturating_add"))
m("p33-pol-never", "P33", (CFG, "            SnapshotPolicy::Never => false,", "            SnapshotPolicy::Never => state.snapshot_last_log_id().is_none() && state.committed().next_index() > 5000,"))
m("p33-pol-wrap", "P33", (CFG, "next_index().saturating_add(*threshold)", "next_index() + threshold"))
m("p33-pol-follower", "P33", (FH, "            if self.config.snapshot_policy.should_snapshot(&self.state) {\n                self.snapshot_handler().trigger_snapshot();\n            }\n", ""))
m("p33-pol-leader", "P33", (RH, "            if self.config.snapshot_policy.should_snapshot(&self.state) {\n                self.snapshot_handler().trigger_snapshot();\n            }\n", ""))
m("p33-pol-always", "P33", (FH, "            if self.config.snapshot_policy.should_snapshot(&self.state) {", "            if self.config.snapshot_policy.should_snapshot(&self.state) || self.state.snapshot_meta.last_log_id.is_none() {"))
m("p33-user-build", "P33", (RC, "        self.engine.snapshot_handler().trigger_snapshot();", "        if self.engine.config.snapshot_policy.should_snapshot(&self.engine.state) {\n            self.engine.snapshot_handler().trigger_snapshot();\n        }"))
# behaviour kept
m("p33-ben-linear", "P33", (LOGH, "if st.last_purged_log_id().next_index().saturating_add(batch_size) > purge_end {", "if purge_end < batch_size.saturating_add(st.last_purged_log_id().next_index()) {"), benign=True)
m("p33-ben-if", "P33", (LOGH, "let purge_end = self.state.snapshot_meta.last_log_id.next_index().saturating_sub(max_keep);", "let snap_next = self.state.snapshot_meta.last_log_id.next_index();\n        let purge_end = if snap_next > max_keep { snap_next - max_keep } else { 0 };"), benign=True)
m("p33-ben-min", "P33", (EI, "        if index > snapshot_last_log_id.index {", "        let index_given = index;\n        index = std::cmp::min(index_given, snapshot_last_log_id.index);\n        if index_given > snapshot_last_log_id.index {"), (EI, "            index = snapshot_last_log_id.index;\n", ""), benign=True)
m("p33-ben-inline", "P33", (LOGH, "        if let Some(purge_upto) = self.calc_purge_upto() {", "        let upto = self.calc_purge_upto();\n        if let Some(purge_upto) = upto {"), (EI, "        self.log_handler().schedule_policy_based_purge();\n        self.try_purge_log();", "        let mut h = self.log_handler();\n        h.schedule_policy_based_purge();\n        self.try_purge_log();"), benign=True)
m("p33-ben-any", "P33", (RH, """        let mut in_use = false;
        for (id, prog_entry) in self.leader.progress.iter() {
            if prog_entry.is_log_range_inflight(&purge_upto) {
                tracing::debug!("log {} is in use by {}", purge_upto, id);
                in_use = true;
            }
        }
""", "        let in_use = self.leader.progress.iter().any(|(_id, p)| p.is_log_range_inflight(&purge_upto));\n"), benign=True)
m("p33-ben-policy", "P33", (CFG, "                state.committed().next_index() >= state.snapshot_last_log_id().next_index().saturating_add(*threshold)", "                let since = state.committed().next_index().saturating_sub(state.snapshot_last_log_id().next_index());\n                since >= *threshold"), benign=True)
m("p33-ben-early", "P33", (LOGH, "        if let Some(purge_upto) = self.calc_purge_upto() {", "        let Some(purge_upto) = self.calc_purge_upto() else {\n            return;\n        };\n        {"), benign=True)
m("p33-ben-le", "P33", (LOGH, REG, "            if Some(&purge_upto) <= self.state.purge_upto() {\n                return;\n            }\n            self.update_purge_upto(purge_upto);"), benign=True)

# ---- second adversarial round (core protocol) ----
m("r2-p01-same-leader", "P01", (VH, "            self.output.push_command(Command::SaveVote { vote: *vote });", "            if !vote.is_committed() {\n                self.output.push_command(Command::SaveVote { vote: *vote });\n            }"))
m("r2-p01-ge", "P01", (VH, "        if vote >= self.state.vote_ref() {\n            // Ok", "        if vote >= self.state.vote_ref() || vote.leader_id().term >= self.state.vote_ref().leader_id().term {\n            // Ok"))
m("r2-p01-touch", "P01", (VH, "            self.state.vote.update(C::now(), leader_lease, *vote);\n            self.state.accept_io(IOId::new(*vote));\n            self.output.push_command(Command::SaveVote { vote: *vote });", "            self.state.vote.update(C::now(), leader_lease, *vote);\n            if self.state.accept_io(IOId::new(*vote)).is_some() || vote.is_committed() {\n                self.output.push_command(Command::SaveVote { vote: *vote });\n            }"))
m("r2-p01-late-save", "P01", (RC, "                self.log_store.save_vote(&vote).await?;\n\n                let _ = self.tx_notification.send(Notification::LocalIO { io_id: IOId::new(vote) });\n", "                let _ = self.tx_notification.send(Notification::LocalIO { io_id: IOId::new(vote) });\n                self.log_store.save_vote(&vote).await?;\n"))
m("r2-p02-when-none", "P02", (FH, "            let condition = prev_accepted.map(|x| Condition::IOFlushed { io_id: x });", "            let condition = prev_accepted.filter(|x| *x.vote_ref() == *self.leader_vote).map(|x| Condition::IOFlushed { io_id: x });"))
m("r2-p02-cond-old", "P02", (EI, """            let condition = if is_ok {
                Some(Condition::IOFlushed {
                    io_id: *self.state.accepted_io().unwrap(),
                })""", """            let condition = if is_ok {
                Some(Condition::IOFlushed {
                    io_id: *self.state.io_state().io_progress.submitted().unwrap(),
                })"""))
m("r2-p02-nocheck-equal", "P02", (EI, "        let res = self.append_entries(vote, prev_log_id, entries);\n        let is_ok = res.is_ok();\n", "        let no_entry = entries.is_empty();\n        let res = self.append_entries(vote, prev_log_id, entries);\n        let is_ok = res.is_ok() && !no_entry;\n"))
m("r2-p02-snap-wait", "P02", (S + "engine/command.rs", "                sm::Command::InstallFullSnapshot { .. } => Some(Condition::SubmittedFlushed),\n", ""))
m("r2-p02-snap-io", "P02", (FH, "        let io_id = *self.state.accepted_io().unwrap();\n", ""))
m("r2-p02-snap-le", "P02", (RC, "                    if progress.flushed() < progress.submitted() {", "                    if progress.flushed() < progress.accepted() && progress.flushed().is_none() {"))
m("r2-p03-same-vote", "P03", (EI, "        if req.last_log_id.as_ref() >= self.state.last_log_id() {\n            // Ok", "        if req.last_log_id.as_ref() >= self.state.last_log_id() || &req.vote == self.state.vote_ref() {\n            // Ok"))
m("r2-p03-lease-learner", "P03", (EI, "        if local_leased_vote.is_committed() {\n            // Current", "        if local_leased_vote.is_committed() && !self.state.server_state.is_learner() {\n            // Current"))
m("r2-p03-committed-log", "P03", (EI, "        if req.last_log_id.as_ref() >= self.state.last_log_id() {\n            // Ok", "        if req.last_log_id.as_ref() >= self.state.committed() {\n            // Ok"))
m("r2-p03-lease-term", "P03", (EI, "            if !local_leased_vote.is_expired(now, Duration::from_millis(0)) {", "            if !local_leased_vote.is_expired(now, Duration::from_millis(0)) && req.vote.leader_id().term <= local_leased_vote.leader_id().term + 1 {"))
m("r2-p04-term-only", "P04", (EI, "        if resp.vote_granted && &resp.vote == candidate.vote_ref() {", "        if resp.vote_granted && resp.vote.leader_id() >= candidate.vote_ref().leader_id() {"))
m("r2-p04-keep-progress", "P04", (EI, "        let candidate = self.new_candidate(new_vote);\n", "        let candidate = match self.candidate.take() {\n            Some(mut c) if c.last_log_id() == self.state.last_log_id() => {\n                c.set_vote(new_vote);\n                &*self.candidate.insert(c)\n            }\n            _ => &*self.new_candidate(new_vote),\n        };\n"), (CAND, "    pub(crate) fn last_log_id(&self)", "    pub(crate) fn set_vote(&mut self, vote: Vote<C::NodeId>) {\n        self.vote = vote;\n    }\n\n    pub(crate) fn last_log_id(&self)"))
m("r2-p04-req-committed", "P04", (EI, "            vote_req: VoteRequest::new(new_vote, last_log_id),", "            vote_req: VoteRequest::new(new_vote, last_log_id.max(self.state.snapshot_meta.last_log_id)),"))
m("r2-p04-self-early", "P04", (EI, "        let last_log_id = candidate.last_log_id().copied();\n", "        let last_log_id = candidate.last_log_id().copied();\n        self.candidate.as_mut().map(|c| c.grant_by(&self.config.id));\n"))
m("r2-p04-target", "P04", (RC, "                    target: self.id,\n                    // last_log_id is not used when sending VoteRequest to local node", "                    target: vote.leader_id().voted_for().unwrap_or(self.id),\n                    // last_log_id is not used when sending VoteRequest to local node"))
m("r2-p04-unfiltered", "P04", (RC, "                if self.does_vote_match(&sender_vote, \"VoteResponse\") {", "                if self.does_vote_match(&sender_vote, \"VoteResponse\") || resp.vote_granted {"), benign=True)
m("r2-p05-accepted-local", "P05", (RC, "self.engine.replication_handler().update_local_progress(log_io_id.log_id);", "let last = self.engine.state.last_log_id().copied().max(log_io_id.log_id);\n                                self.engine.replication_handler().update_local_progress(last);"))
m("r2-p05-no-vote-local", "P05", (RC, "if self.does_vote_match(io_id.vote_ref(), \"LocalIO Notification\") {", "if io_id.vote_ref() <= self.engine.state.vote_ref() {"))
m("r2-p05-term-ge", "P05", (RH, "            if !self.state.vote_ref().is_same_leader(c.committed_leader_id()) {\n                return;", "            if !self.state.vote_ref().is_same_leader(c.committed_leader_id()) && Some(&c) <= self.leader.last_log_id() && self.leader.noop_log_id().is_some() && Some(&c) < self.state.committed() {\n                return;"))
m("r2-p05-quorum-index", "P05", (PG, "                let it = self.vector[0..=i].iter().map(|x| &x.0);", "                let it = self.vector[0..=(i + 1).min(self.vector.len() - 1)].iter().map(|x| &x.0);"))
m("r2-p05-learner-vec", "P05", (PG, "        if index >= self.voter_count {\n            return Ok(&self.granted);\n        }\n", ""))
m("r2-p05-upgrade-granted", "P05", (PG, "        new_prog.stat = self.stat.clone();\n", "        new_prog.stat = self.stat.clone();\n        new_prog.granted = self.granted;\n"))
m("r2-p05-moveup-le", "P05", (PG, "            if self.vector[i].1.borrow() < self.vector[i + 1].1.borrow() {", "            if self.vector[i].1.borrow() <= self.vector[i + 1].1.borrow() || i == 0 {"))
m("r2-p05-break", "P05", (PG, "                if prog <= &self.granted {\n                    break;\n                }\n", "                if prog < &self.granted {\n                    continue;\n                }\n"), benign=True)
m("r2-p05-early", "P05", (PG, "        if new_gt_granted {\n", "        if prev_le_granted && new_gt_granted {\n"))
m("r2-p05-first-place", "P05", (PG, "for i in (0..index).rev()", "for i in (1..index).rev()"))
m("r2-p05-passed", "P05", (PG, "                self.vector.swap(i, i + 1);\n            } else {", "                if self.vector[i].1.borrow() > &self.granted {\n                    self.vector.swap(i, i + 1);\n                }\n            } else {"), (PG, "    fn move_up(&mut self, index: usize) -> usize\n    where P: PartialOrd {", "    fn move_up(&mut self, index: usize) -> usize\n    where P: PartialOrd {"))
m("p05-ben-while", "P05", (PG, """        for i in (0..index).rev() {
            if self.vector[i].1.borrow() < self.vector[i + 1].1.borrow() {
                self.vector.swap(i, i + 1);
            } else {
                return i + 1;
            }
        }

        0
""", """        let mut at = index;
        while at > 0 && self.vector[at - 1].1.borrow() < self.vector[at].1.borrow() {
            self.vector.swap(at - 1, at);
            at -= 1;
        }
        at
"""), benign=True)
m("p05-ben-filter", "P05", (PG, "let it = self.vector[0..=i].iter().map(|x| &x.0);", "let it = self.vector[0..self.voter_count].iter().filter(|x| x.1.borrow() >= prog).map(|x| &x.0);"), benign=True)
m("p05-ben-two", "P05", (PG, """            // The ids greater than `granted` are the same as before and do not constitute a quorum.
            if !prev_le_granted {
                return Ok(&self.granted);
            }

""", ""), benign=True)
m("p19-ben-replaced", "P19", (RC, """                            st.update_snapshot(meta.last_log_id);
                        }
                    }
                    sm::Response::Apply(res)""", """                            st.update_snapshot(meta.last_log_id);

                            let rest = self.client_resp_channels.split_off(&meta.last_log_id.next_index());
                            let replaced = std::mem::replace(&mut self.client_resp_channels, rest);
                            for (_i, tx) in replaced {
                                tx.send(Err(ClientWriteError::ForwardToLeader(ForwardToLeader::empty())));
                            }
                        }
                    }
                    sm::Response::Apply(res)"""), benign=True)
m("r3-p19-replaced-drop", "P19", (RC, """                            st.update_snapshot(meta.last_log_id);
                        }
                    }
                    sm::Response::Apply(res)""", """                            st.update_snapshot(meta.last_log_id);

                            let rest = self.client_resp_channels.split_off(&meta.last_log_id.next_index());
                            let _replaced = std::mem::replace(&mut self.client_resp_channels, rest);
                        }
                    }
                    sm::Response::Apply(res)"""))
m("r2-p25-joint-any", "P25", (S + "quorum/joint.rs", "        for child in self.data.iter() {\n            if !child.is_quorum(ids.clone()) {\n                return false;\n            }\n        }\n        true\n", "        self.data.iter().any(|child| child.is_quorum(ids.clone()))\n", 0))
m("r2-p25-last", "P25", (S + "quorum/joint.rs", "        for child in self.data.iter() {\n            if !child.is_quorum(ids.clone()) {", "        for child in self.data.iter().rev().take(1) {\n            if !child.is_quorum(ids.clone()) {", 1))
m("r2-p06-max", "P06", (FH, "        let committed = std::cmp::min(accepted, leader_committed);", "        let committed = std::cmp::min(self.state.last_log_id().copied(), leader_committed);"))
m("r2-p06-on-reject", "P06", (RC, "        let is_ok = self.engine.handle_append_entries(&req.vote, req.prev_log_id, req.entries, Some(tx));\n\n        if is_ok {", "        let vote = req.vote;\n        let is_ok = self.engine.handle_append_entries(&req.vote, req.prev_log_id, req.entries, Some(tx));\n\n        if is_ok || &vote == self.engine.state.vote_ref() {"))
m("r2-p07-has-log", "P07", (S + "raft_state/log_state_reader.rs", "            *log_id == local", "            *log_id == local || log_id.leader_id < local.leader_id"))
m("r2-p07-has-log-acc", "P07", (S + "raft_state/log_state_reader.rs", "        if log_id.index < self.committed().next_index() {", "        if log_id.index < self.snapshot_last_log_id().max(self.committed()).next_index() || log_id.index < self.io_purged().next_index() + 1 {"))
m("r2-p07-first-conf", "P07", (RS, "        for (i, ent) in entries.iter().enumerate() {\n            let log_id = ent.get_log_id();", "        for (i, ent) in entries.iter().enumerate().skip(entries.len().saturating_sub(2)) {\n            let log_id = ent.get_log_id();"))
m("r2-p07-prev-none", "P07", (FH, "            if !self.state.has_log_id(prev) {", "            if !self.state.has_log_id(prev) && Some(prev) > self.state.last_purged_log_id() && self.state.last_log_id().is_some() {"))
m("r2-p08-trunc-last", "P08", (FH, "            self.truncate_logs(entries[since].get_log_id().index);", "            self.truncate_logs(entries[0].get_log_id().index);"))
m("r2-p08-snap-trunc", "P08", (FH, "                self.truncate_logs(self.state.committed().next_index());", "                self.truncate_logs(self.state.snapshot_meta.last_log_id.next_index().min(self.state.last_purged_log_id().next_index()));"))
m("r2-p10-already", "P10", (FH, "                already_committed: prev_committed,", "                already_committed: prev_committed.max(self.state.io_applied().copied()),"))
m("r2-p10-upto", "P10", (FH, "                upto: committed.unwrap(),", "                upto: leader_committed.unwrap(),"))
m("r2-p10-first", "P10", (RC, "let first = self.engine.state.get_log_id(already_committed.next_index()).unwrap();", "let first = self.engine.state.get_log_id(already_committed.next_index().max(self.engine.state.io_applied().next_index())).unwrap();"), benign=True)
m("r2-p10-worker", "P10", (WK, "        let end = last.index + 1;", "        let end = last.index.max(first.index + 1);"))
m("r2-p12-skip-blocked", "P12", (RC, "                self.engine.output.postpone_command(cmd);\n", "                let respond = matches!(cmd, Command::Respond { .. });\n                self.engine.output.postpone_command(cmd);\n                if respond && self.engine.output.len() > 1 {\n                    let cmd = self.engine.output.pop_command().unwrap();\n                    let next = self.engine.output.pop_command().unwrap();\n                    self.engine.output.postpone_command(cmd);\n                    if let Some(next) = self.run_command(next).await? {\n                        self.engine.output.postpone_command(next);\n                    }\n                }\n"))
m("r2-p34-spawn-apply", "P34", (WK, "                    self.get_snapshot(tx).await?;", "                    if tx.is_closed() {\n                        return Ok(());\n                    }\n                    self.get_snapshot(tx).await?;"), skip=True)
m("r2-p34-builder-late", "P34", (WK, "        let mut builder = self.state_machine.get_snapshot_builder().await;\n\n", ""), skip=True)
m("r2-p34-continue", "P34", (WK, "                    self.state_machine.install_snapshot(&meta, snapshot.snapshot).await?;", "                    if let Err(_e) = self.state_machine.install_snapshot(&meta, snapshot.snapshot).await {\n                        continue;\n                    }"))
m("r2-p34-last", "P34", (WK, "        let last_applied = last;", "        let last_applied = entries.last().map(|e| *e.get_log_id()).unwrap_or(first);"), benign=True)
m("r2-p17-no-mem", "P17", (RC, "        if &session_id.membership_log_id != self.engine.state.membership_state.effective().log_id() {", "        if &session_id.membership_log_id < self.engine.state.membership_state.committed().log_id() {"))
m("r2-p17-vote-le", "P17", (RC, "        if !self.does_vote_match(session_id.vote_ref(), msg) {\n            return false;", "        if session_id.vote_ref() < self.engine.state.vote_ref() && !self.does_vote_match(session_id.vote_ref(), msg) && self.engine.leader.is_none() {\n            return false;"))
m("r2-p17-hb-session", "P17", (LH, "        let session_id = ReplicationSessionId::new(self.leader.committed_vote, *membership_log_id);", "        let session_id = ReplicationSessionId::new(self.state.vote_ref().into_committed(), *self.state.membership_state.committed().log_id().max(membership_log_id));"), benign=True)
m("r2-p09-snap-le", "P09", (S + "engine/command.rs", "            Command::PurgeLog { upto }                => Some(Condition::Snapshot { log_id: Some(*upto) }),", "            Command::PurgeLog { upto }                => Some(Condition::Applied { log_id: Some(*upto) }),"))
m("r2-p09-persist", "P09", (RC, "                        let last_log_id = meta.last_log_id;\n                        self.engine.finish_building_snapshot(meta);", "                        let last_log_id = meta.last_log_id.max(self.engine.state.io_applied().copied());\n                        self.engine.finish_building_snapshot(meta);"))
m("r2-p12-trunc", "P12", (FH, "            self.truncate_logs(entries[since].get_log_id().index);\n\n            let entries = entries.split_off(since);\n            self.do_append_entries(entries);", "            let at = entries[since].get_log_id().index;\n            let rest = entries.split_off(since);\n            if self.state.get_log_id(at).is_some() {\n                self.state.log_ids.truncate(at);\n                self.state.membership_state.truncate(at);\n            }\n            self.do_append_entries(rest);"))
M = [x for x in M if not x.get("skip")]

# third adversarial round
m("r3-p13-content", "P13", (S + "raft_state/membership_state/change_handler.rs", "if effective.log_id() == committed.log_id() {", "if effective.membership() == committed.membership() {"))
m("r3-p13-second", "P13", (S + "raft/impl_raft_blocking_write.rs", """        if let Err(e) = &res {
            tracing::error!("the second step error: {}", e);
        }
        let res = res?;
""", """        let res = match res {
            Ok(x) => x,
            Err(RaftError::APIError(ClientWriteError::ForwardToLeader(_))) => {
                return Ok(ClientWriteResponse {
                    log_id,
                    data: first_data,
                    membership: Some(joint),
                });
            }
            Err(e) => return Err(e),
        };
"""), (S + "raft/impl_raft_blocking_write.rs", "        if joint.get_joint_config().len() == 1 {\n            return Ok(res);\n        }\n", "        if joint.get_joint_config().len() == 1 {\n            return Ok(res);\n        }\n        let first_data = res.data;\n"))
m("r3-p13-learners", "P13", (RH, """                old_progress.upgrade_quorum_set(em.membership().to_quorum_set(), learner_ids, || None);""", """                old_progress.upgrade_quorum_set(self.state.membership_state.committed().membership().to_quorum_set(), learner_ids, || None);"""))
m("r3-p13-rebuild-late", "P13", (RH, """        self.rebuild_progresses();
        self.rebuild_replication_streams();
        self.initiate_replication();
    }
""", """        let voters = self.state.membership_state.committed().voter_ids().collect::<Vec<_>>();
        let changed = self.state.membership_state.effective().voter_ids().any(|x| !voters.contains(&x));

        if changed || voters.is_empty() {
            self.rebuild_progresses();
        }
        self.rebuild_replication_streams();
        self.initiate_replication();
    }
"""))
m("r3-p13-union", "P13", (S + "membership/membership.rs", """            ChangeMembers::RemoveVoters(remove_voter_ids) => {
                let new_voter_ids = last.difference""", """            ChangeMembers::RemoveVoters(remove_voter_ids) => {
                let first = self.get_joint_config().first().cloned().unwrap_or_default();
                let last = if first.len() < last.len() { first } else { last };
                let new_voter_ids = last.difference"""))
m("r3-p14-order", "P14", (MSM, "if c.log_id().index() >= self.effective.log_id().index() {", "if c.log_id() >= self.effective.log_id() {"), benign=True)
m("r3-p14-since", "P14", (MSM, "if Some(since) <= self.effective().log_id().index() {", "if Some(since) < self.effective().log_id().index() {"))
m("r3-p14-rev", "P14", (FH, """                memberships.insert(0, StoredMembership::new(Some(*ent.get_log_id()), m.clone()));
                if memberships.len() == 2 {""", """                memberships.push(StoredMembership::new(Some(*ent.get_log_id()), m.clone()));
                if memberships.len() == 2 {"""))
m("r3-p14-app", "P14", (FH, """        self.state.extend_log_ids(&entries);
        self.append_membership(entries.iter());
""", """        self.state.extend_log_ids(&entries);
        if entries.last().map(|x| *x.get_log_id()) > self.state.committed().copied() {
            self.append_membership(entries.iter().filter(|x| Some(x.get_log_id()) > self.state.membership_state.effective().log_id().as_ref()).collect::<Vec<_>>().into_iter());
        }
"""), skip=True)
m("r3-p15-hv", "P15", (RC, "                if let AppendEntriesResponse::HigherVote(vote) = append_res {", "                if let (AppendEntriesResponse::HigherVote(vote), true) = (&append_res, !granted.is_empty() && eff_mem.is_voter(&target) && pending.is_empty()) {\n                    let vote = *vote;"))
m("r3-p15-noop", "P15", (LH, "        std::cmp::max(self.leader.noop_log_id, committed)", "        committed.or(self.leader.noop_log_id)"))
m("r3-p15-applied-none", "P15", (RAW, "        if read_log_id.index() > applied.index() {", "        if applied.is_some() && read_log_id.index() > applied.index() {"))
m("r3-p15-committed-mem", "P15", (RC, """        let eff_mem = self.engine.state.membership_state.effective().clone();
        let core_tx""", """        let eff_mem = self.engine.state.membership_state.committed().clone();
        let core_tx"""))
m("r3-p16-candidate", "P16", (EI, """        // Update if resp.vote is greater.
        let _ = self.vote_handler().update_vote(&resp.vote);""", """        // Update if resp.vote is greater.
        if !resp.vote_granted {
            let _ = self.vote_handler().update_vote(&resp.vote);
        }"""))
m("r3-p16-greater", "P16", (EI, """            self.set_greater_log();
        }

        // Update if""", """            self.set_greater_log();
            return;
        }

        // Update if"""))
m("r3-p16-leader-only", "P16", (RC, """                if self.does_vote_match(&sender_vote, "HigherVote") {
                    // Rejected""", """                if self.engine.leader.is_some() && self.does_vote_match(&sender_vote, "HigherVote") && higher.committed {
                    // Rejected"""))
m("r3-p18-partial", "P18", (RC, """        if let Some(tx) = tx {
            self.client_resp_channels.insert(index, tx);
        }""", """        if let Some(tx) = tx {
            self.client_resp_channels.entry(index).or_insert(tx);
        }"""), skip=True)
m("r3-p18-func", "P18", (WK, """                    let _ = tx.send(Ok(snapshot_data));
                    // No response""", """                    if self.resp_tx.send(Notification::Tick { i: 0 }).is_ok() {
                        let _ = tx.send(Ok(snapshot_data));
                    }
                    // No response"""), skip=True)
m("r3-p18-getsnap", "P18", (WK, """        let _ = tx.send(Ok(snapshot));
        Ok(())""", """        if snapshot.is_some() {
            let _ = tx.send(Ok(snapshot));
        }
        Ok(())"""))
m("r3-p18-respond", "P18", (RC, """            Command::Respond { resp: send, .. } => {
                send.send();
            }""", """            Command::Respond { resp: send, .. } => {
                if self.engine.state.server_state != ServerState::Leader {
                    send.send();
                }
            }"""))
m("r3-p18-change", "P18", (RC, """                tx.send(Err(ClientWriteError::ChangeMembershipError(e)));
                return;""", """                if self.engine.leader.is_some() {
                    tx.send(Err(ClientWriteError::ChangeMembershipError(e)));
                }
                return;"""))
m("r3-p19-first-log", "P19", (RC, "        let index = lh.state.last_log_id().unwrap().index;\n", "        let index = lh.leader.noop_log_id().map(|x| x.index).unwrap_or_default().max(lh.state.last_log_id().unwrap().index);\n"), skip=True)
m("r3-p19-since-next", "P19", (RC, "let removed = self.client_resp_channels.split_off(&since.index);", "let removed = self.client_resp_channels.split_off(&(since.index + 1));"))
m("r3-p19-only-self", "P19", (RC, """            Self::send_response(ent, apply_res, tx);
""", """            if ent.membership.is_none() || self.engine.leader.is_some() {
                Self::send_response(ent, apply_res, tx);
            }
"""))
m("r3-p19-dedup", "P19", (RC, "        for log_index in res.since..res.end {\n", "        let since = std::cmp::max(res.since, self.engine.state.purged_next);\n        for log_index in since..res.end {\n"))
m("r3-p20-block-membership", "P20", (RC, """        if let Some(to) = lh.leader.get_transfer_to() {
            if let Some(tx) = tx {""", """        if let (Some(to), None) = (lh.leader.get_transfer_to(), crate::entry::RaftPayload::get_membership(&entry)) {
            if let Some(tx) = tx {"""))
m("r3-p20-vote-ge", "P20", (RC, "                if self.engine.state.vote_ref() == &current_leader_vote {", "                if self.engine.state.vote_ref() <= &current_leader_vote {"))
m("r3-p20-wait-len", "P20", (RAW, "        if req.to_node_id == self.inner.id {\n            self.ensure", "        if req.to_node_id == self.inner.id && req.last_log_id.is_none() {\n            self.ensure"))
m("r3-p20-clear", "P20", (RC, """        lh.send_heartbeat();

        tracing::debug!("{} triggered sending""", """        lh.leader.transfer_to = None;
        lh.send_heartbeat();

        tracing::debug!("{} triggered sending"""), (RC, """        if lh.leader.get_transfer_to().is_some() {
            tracing::debug!(
                now""", """        if lh.leader.get_transfer_to() == Some(&self.id) {
            tracing::debug!(
                now"""))
m("r3-p21-partial", "P21", (REPL, """                Self::debug_assert_partial_success(&sending_range, &matching);

                self.notify_heartbeat_progress(leader_time);""", """                Self::debug_assert_partial_success(&sending_range, &matching);

                self.notify_heartbeat_progress(C::now());"""))
m("r3-p21-higher", "P21", (REPL, """                tracing::debug!(%vote, "append entries failed. converting to follower");
""", """                tracing::debug!(%vote, "append entries failed. converting to follower");
                self.notify_heartbeat_progress(leader_time);
"""))
m("r3-p22-equal", "P22", (FH, "if snap_last_log_id.as_ref() <= self.state.committed() {", "if snap_last_log_id.as_ref() <= self.state.snapshot_last_log_id() {"))
m("r3-p22-index", "P22", (SH, "if meta.last_log_id <= self.state.snapshot_last_log_id().copied() {", "if crate::LogIdOptionExt::next_index(&meta.last_log_id) < crate::LogIdOptionExt::next_index(&self.state.snapshot_last_log_id()) {"))
m("r3-p22-applied-max", "P22", (RC, """                            st.update_applied(meta.last_log_id);
                            st.update_snapshot(meta.last_log_id);""", """                            st.update_applied(io_id.last_log_id().copied());
                            st.update_snapshot(meta.last_log_id);"""))
m("r3-p22-committed", "P22", (FH, "        self.state.committed = Some(snap_last_log_id);\n", "        self.state.committed = io_id.last_log_id().copied();\n"))
m("r3-p34-apply-spawn", "P34", (WK, """            .map(|e| ApplyingEntry::new(*e.get_log_id(), e.get_membership().cloned()))""", """            .skip_while(|e| e.get_log_id().index < since)
            .map(|e| ApplyingEntry::new(*e.get_log_id(), e.get_membership().cloned()))"""), skip=True)
m("r3-p34-applied", "P34", (WK, "        let last_applied = last;\n", "        let last_applied = entries.first().map(|x| *x.get_log_id()).unwrap_or(last);\n"))
m("r3-p34-inst-meta", "P34", (WK, """                    self.state_machine.install_snapshot(&meta, snapshot.snapshot).await?;

                    tracing::info!("Done install complete snapshot, meta: {}", meta);

                    let res = CommandResult::new(Ok(Response::InstallSnapshot((io_id, Some(meta)))));
                    let _ = self.resp_tx.send(Notification::sm(res));""", """                    let res = CommandResult::new(Ok(Response::InstallSnapshot((io_id, Some(meta.clone())))));
                    let resp_tx = self.resp_tx.clone();
                    self.state_machine.install_snapshot(&meta, snapshot.snapshot).await.map(|_| {
                        let _ = resp_tx.send(Notification::sm(res));
                    })?;"""), benign=True)
m("r3-p34-end", "P34", (WK, "        let end = last.index + 1;\n", "        let end = std::cmp::max(last.index, since + 1);\n"))
m("r3-p28-leader-idx", "P28", (RC, "        let membership_config = st.membership_state.effective().stored_membership().clone();\n        let current_leader = self.current_leader();", "        let membership_config = st.membership_state.committed().stored_membership().clone();\n        let current_leader = self.current_leader();"))
m("r3-p23-committed", "P23", (S + "storage/helper.rs", "            last_applied = committed;\n        }\n", "        }\n        last_applied = std::cmp::max(committed, last_log_id);\n"))
m("r3-p23-chunk", "P23", (S + "storage/helper.rs", "            let chunk_end = std::cmp::min(end, start + chunk_size);", "            let chunk_end = if end - start > chunk_size { start + chunk_size } else { std::cmp::max(end - 1, start + 1) };"), benign=True)
m("r3-p26-applied", "P26", (S + "storage/helper.rs", "        let log_mem = self.last_membership_in_log(last_applied.next_index()).await?;", "        let log_mem = self.last_membership_in_log(last_applied.next_index() + 1).await?;"))
m("r3-p26-sm-first", "P26", (S + "storage/helper.rs", """        let effective = if log_mem.is_empty() {""", """        let effective = if log_mem.is_empty() || sm_mem.log_id().next_index() > log_mem[0].log_id().index().unwrap_or_default() {"""))
m("r3-p29-vote", "P29", (EI, "        if !self.state.is_initialized() {\n            return Ok(());\n        }\n\n        tracing::error!(", "        if self.state.last_log_id().is_none() {\n            return Ok(());\n        }\n\n        tracing::error!("))
m("r3-p11-partial", "P11", (S + "core/raft_core.rs", """                self.log_store.truncate(since).await?;

                // Inform""", """                if let Err(e) = self.log_store.truncate(since).await {
                    let _ = self.tx_notification.send(Notification::StorageError { error: e });
                }

                // Inform"""))
m("r3-p11-getsnap", "P11", (WK, """        let snapshot = self.state_machine.get_current_snapshot().await?;

        tracing::info!(
            "sending""", """        let snapshot = match self.state_machine.get_current_snapshot().await {
            Ok(x) => x,
            Err(e) => {
                tracing::error!("get snapshot: {}", e);
                None
            }
        };

        tracing::info!(
            "sending"""))
m("r3-p32-inst", "P32", (RC, """                        if last_log_id.as_ref() > st.snapshot() {""", """                        if last_log_id.index() >= st.snapshot().index() {"""))
m("r3-p32-spawn", "P32", (SH, """        self.state.io_state.set_building_snapshot(true);

        self.output.push_command(Command::from(sm::Command::build_snapshot()));""", """        let building = !self.state.committed().is_none();
        self.state.io_state.set_building_snapshot(building);

        self.output.push_command(Command::from(sm::Command::build_snapshot()));"""))
m("r3-p36-noop", "P36", (S + "proposer/leader.rs", "        let first = LogId::new(committed_leader_id, self.last_log_id().next_index());", "        let first = LogId::new(committed_leader_id, std::cmp::min(self.last_log_id().next_index(), self.noop_log_id().next_index().saturating_add(u64::from(self.last_log_id > self.noop_log_id) * u64::MAX)));"), skip=True)
m("r3-p36-zero", "P36", (S + "proposer/leader.rs", """        if last.index > first.index {
            last.index -= 1;""", """        if last.index > first.index + 1 || self.last_log_id.is_none() {
            last.index -= 1;"""))
m("r3-p37-only", "P37", (RC, "        if self.engine.state.membership_state.effective().voter_ids().count() == 1 {", "        if self.engine.state.membership_state.effective().get_joint_config().iter().any(|c| c.len() == 1) {"))
m("r3-p37-lease-any", "P37", (VH, "", ""), skip=True)
M = [x for x in M if not x.get("skip")]
# fourth round: what a guard looks at
m("r4-p04-committed", "P04", (RC, "        if !self.engine.state.membership_state.effective().is_voter(&self.id) {", "        if !self.engine.state.membership_state.committed().is_voter(&self.id) {"))
m("r4-p04-leader-id", "P04", (RC, "                        if self.engine.state.membership_state.effective().is_voter(&self.id) {\n                            // TODO", "                        let who = self.engine.state.vote_ref().leader_id().voted_for().unwrap_or(self.id);\n                        if self.engine.state.membership_state.effective().is_voter(&who) {\n                            // TODO"))
m("r4-p04-to", "P20", (RC, "                    if self.id == to && self.engine.state.membership_state.effective().is_voter(&self.id) {", "                    if self.id == to && self.engine.state.membership_state.effective().is_voter(&to) {"), benign=True)
m("r4-p20-to", "P20", (RC, "                    if self.id == to && self.engine.state.membership_state.effective().is_voter(&self.id) {", "                    if self.engine.state.membership_state.effective().is_voter(&to) {"))
m("r4-p37-learners", "P37", (RC, "        if self.engine.state.membership_state.effective().voter_ids().count() == 1 {", "        if self.engine.state.membership_state.effective().membership().learner_ids().count() == 1 {"))
m("r4-p37-nodes", "P37", (RC, "        if self.engine.state.membership_state.effective().voter_ids().count() == 1 {", "        if self.engine.state.membership_state.effective().nodes().count() == 1 {"), benign=True)
m("r4-p37-committed-one", "P37", (RC, "        if self.engine.state.membership_state.effective().voter_ids().count() == 1 {", "        if self.engine.state.membership_state.committed().voter_ids().count() == 1 {"))
M = [x for x in M if not x.get("skip")]
