use std::sync::Arc;
use std::time::Duration;

use maplit::btreeset;

use crate::engine::testing::UTConfig;
use crate::engine::Command;
use crate::engine::Engine;
use crate::engine::LogIdList;
use crate::log_id::RaftLogId;
use crate::raft::VoteResponse;
use crate::testing::blank_ent;
use crate::testing::log_id;
use crate::type_config::TypeConfigExt;
use crate::EffectiveMembership;
use crate::Membership;
use crate::MembershipState;
use crate::Vote;

/// The leader T2-N1 of nodes 1,2,3 with log entries up to T2-N1.4.
fn leader() -> Engine<UTConfig> {
    let mut eng = Engine::<UTConfig>::testing_default(0);
    eng.state.enable_validation(false);
    eng.config.id = 1;
    eng.state.vote.update(UTConfig::<()>::now(), Duration::from_secs(1), Vote::new_committed(2, 1));
    let m = Membership::<UTConfig>::new(vec![btreeset! {1, 2, 3}], None);
    let em = Arc::new(EffectiveMembership::new(Some(log_id(1, 1, 1)), m));
    eng.state.membership_state = MembershipState::new(em.clone(), em);
    eng.state.log_ids = LogIdList::new([log_id(1, 1, 0), log_id(2, 1, 2), log_id(2, 1, 4)]);
    eng.startup();
    eng.output.take_commands();
    eng
}

/// History: an election is triggered on the leader, a client writes while the votes are collected, the votes arrive.
#[test]
fn no_index_is_given_to_two_entries() {
    let mut eng = leader();
    eng.elect();

    // RaftCore::write_entry
    if let Ok(mut lh) = eng.leader_handler() {
        lh.leader_append_entries(vec![blank_ent(0, 0, 0)]);
    }

    let vote = Vote::new(3, 1);
    for id in [1, 2] {
        eng.handle_vote_resp(id, VoteResponse::new(vote, None, true));
    }
    assert!(eng.state.is_leader(&1));

    let mut ids = vec![];
    for c in eng.output.take_commands() {
        match c {
            Command::AppendInputEntries { entries, .. } => ids.extend(entries.iter().map(|e| *e.get_log_id())),
            Command::TruncateLog { since } => ids.retain(|i| i.index < since.index),
            _ => {}
        }
    }
    println!("appended: {:?}", ids);
    for w in ids.windows(2) {
        assert!(w[0].index < w[1].index, "{} and {} are two entries for one index", w[0], w[1]);
    }
}
