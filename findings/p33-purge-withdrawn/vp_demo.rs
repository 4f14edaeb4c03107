use std::sync::Arc;
use std::time::Duration;

use maplit::btreeset;

use crate::engine::testing::UTConfig;
use crate::engine::Engine;
use crate::engine::LogIdList;
use crate::progress::Inflight;
use crate::progress::Progress;
use crate::storage::SnapshotMeta;
use crate::testing::log_id;
use crate::type_config::TypeConfigExt;
use crate::utime::Leased;
use crate::EffectiveMembership;
use crate::Membership;
use crate::MembershipState;
use crate::StoredMembership;
use crate::Vote;

fn m() -> Membership<UTConfig> {
    Membership::<UTConfig>::new(vec![btreeset! {1,2,3}], None)
}

fn meta(i: u64) -> SnapshotMeta<UTConfig> {
    SnapshotMeta {
        last_log_id: Some(log_id(2, 1, i)),
        last_membership: StoredMembership::new(Some(log_id(1, 1, 1)), m()),
        snapshot_id: format!("{}", i),
    }
}

/// A user's purge up to 10 is postponed: a follower is being sent those logs.
/// Finishing another snapshot build must not reduce it to what the policy alone would purge.
#[test]
fn postponed_purge_is_not_withdrawn() {
    let mut eng = Engine::<UTConfig>::testing_default(0);
    eng.state.enable_validation(false);
    eng.config.id = 2;
    eng.config.max_in_snapshot_log_to_keep = 8;
    eng.config.purge_batch_size = 1;
    eng.state.vote = Leased::new(UTConfig::<()>::now(), Duration::from_millis(500), Vote::new_committed(2, 1));
    let em = Arc::new(EffectiveMembership::new(Some(log_id(1, 1, 1)), m()));
    eng.state.membership_state = MembershipState::new(em.clone(), em);
    eng.state.log_ids = LogIdList::new([log_id(1, 1, 0), log_id(2, 1, 2), log_id(2, 1, 20)]);
    eng.state.snapshot_meta = meta(10);
    eng.testing_new_leader();
    {
        let mut rh = eng.replication_handler();
        rh.leader.progress.get_mut(&3).unwrap().inflight = Inflight::logs(Some(log_id(1, 1, 1)), Some(log_id(2, 1, 9)));
    }
    eng.trigger_purge_log(10);
    assert_eq!(eng.state.purge_upto, Some(log_id(2, 1, 10)));

    eng.finish_building_snapshot(meta(12));
    assert_eq!(eng.state.purge_upto, Some(log_id(2, 1, 10)), "the postponed purge is withdrawn");
}

/// A batch size of 0 with nothing to purge.
#[test]
fn batch_size_zero() {
    let mut eng = Engine::<UTConfig>::testing_default(0);
    eng.state.enable_validation(false);
    eng.config.purge_batch_size = 0;
    eng.config.max_in_snapshot_log_to_keep = 100;
    eng.state.log_ids = LogIdList::new([log_id(1, 1, 0), log_id(2, 1, 2), log_id(2, 1, 20)]);
    eng.finish_building_snapshot(meta(12));
    assert_eq!(eng.state.purge_upto, None);
}
