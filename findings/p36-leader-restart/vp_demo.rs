use std::sync::Arc;
use std::time::Duration;

use maplit::btreeset;

use crate::engine::testing::UTConfig;
use crate::engine::Command;
use crate::engine::Engine;
use crate::engine::LogIdList;
use crate::log_id::RaftLogId;
use crate::replication::request::Data;
use crate::replication::request::Replicate;
use crate::testing::blank_ent;
use crate::testing::log_id;
use crate::type_config::TypeConfigExt;
use crate::EffectiveMembership;
use crate::Membership;
use crate::MembershipState;
use crate::Vote;

/// A node whose stores hold the committed vote T2-N1 and log entries up to T2-N1.4.
fn start() -> Engine<UTConfig> {
    let mut eng = Engine::<UTConfig>::testing_default(0);
    eng.state.enable_validation(false);
    eng.config.id = 1;
    eng.state.vote.update(UTConfig::<()>::now(), Duration::from_secs(1), Vote::new_committed(2, 1));
    let m = Membership::<UTConfig>::new(vec![btreeset! {1, 2, 3}], None);
    let em = Arc::new(EffectiveMembership::new(Some(log_id(1, 1, 1)), m));
    eng.state.membership_state = MembershipState::new(em.clone(), em);
    eng.state.log_ids = LogIdList::new([log_id(1, 1, 0), log_id(2, 1, 2), log_id(2, 1, 4)]);
    eng.startup();
    eng.output.take_commands();
    // replication streams have caught up
    for (_, p) in eng.leader.as_mut().unwrap().progress.iter_mut() {
        p.inflight = crate::progress::Inflight::None;
        p.matching = Some(log_id(2, 1, 4));
        p.searching_end = 5;
    }
    eng
}

/// The log ids that are sent to node 2 before anything is known to be flushed.
fn propose(eng: &mut Engine<UTConfig>) -> (Vec<crate::LogId<u64>>, Option<crate::LogId<u64>>) {
    eng.leader_handler().unwrap().leader_append_entries(vec![blank_ent(0, 0, 0)]);
    let mut ids = vec![];
    let mut sent = None;
    for c in eng.output.take_commands() {
        match c {
            Command::AppendInputEntries { entries, .. } => ids = entries.iter().map(|e| *e.get_log_id()).collect(),
            Command::Replicate { target: 2, req: Replicate::Data(Data::Logs(r)) } => sent = r.last,
            _ => {}
        }
    }
    (ids, sent)
}

/// History: the leader proposes an entry and sends it to a follower before it is flushed; it crashes, loses the
/// entry that was not flushed, restarts as leader of the same term and proposes another entry.
#[test]
fn ids_are_not_reused_after_restart() {
    let mut first = start();
    let (ids, sent) = propose(&mut first);
    assert_eq!(sent.as_ref(), ids.last(), "sent without waiting for its own flush");

    let mut again = start();
    let (ids2, _) = propose(&mut again);
    assert!(ids.iter().all(|i| !ids2.contains(i)), "the id {:?} was given to two entries", ids2);
}
